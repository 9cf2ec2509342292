# Demonstrations in C link the static library that build.sh makes for the Go binding.
CSH = '''#!/bin/bash
# Exits 0 if the behaviour described in meta.json is right, non-zero otherwise. Run with cwd at the repository after the build.
D=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
B=$REPO/bindings/golang/build
L=$(find "$B" -name libc_eth_kzg.a | head -1)
[ -n "$L" ] || { echo "no library"; exit 3; }
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -O1 -w -I"$B" "$D/demo.c" -o "$T/demo" "$L" -lm -lpthread -ldl || exit 3
timeout 250 "$T/demo"
'''
CPRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <malloc.h>
#include "c_eth_kzg.h"
#define CELLS 128
#define must(c, ...) do { if (!(c)) { printf("WRONG: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
static uint8_t blob[131072];
static uint8_t cells[CELLS][2048], proofs[CELLS][48], com[48];
static void setup(DASContext *c) {
  for (int i = 0; i < 4096; i++) blob[32 * i + 31] = i % 251;
  uint8_t *pc[CELLS], *pp[CELLS];
  for (int i = 0; i < CELLS; i++) { pc[i] = cells[i]; pp[i] = proofs[i]; }
  must(eth_kzg_compute_cells_and_kzg_proofs(c, blob, pc, pp).status == Ok, "compute");
  must(eth_kzg_blob_to_kzg_commitment(c, blob, com).status == Ok, "commit");
}
'''
