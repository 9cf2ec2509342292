import com.google.gson.*;
import ethereum.cryptography.*;
import java.io.*;
import java.nio.file.*;
import java.security.MessageDigest;
import java.util.*;
import java.util.concurrent.atomic.AtomicInteger;

/** Drives the Java class through histories of the specification and records what a Java caller observes. Driver TRACE CASES */
public class Driver {
    static PrintWriter out;
    static final AtomicInteger ids = new AtomicInteger(), steps = new AtomicInteger();

    static synchronized void record(Object... kv) {
        JsonObject o = new JsonObject();
        for (int i = 0; i < kv.length; i += 2) {
            Object v = kv[i + 1];
            if (v instanceof Number) o.addProperty((String) kv[i], (Number) v);
            else if (v instanceof Boolean) o.addProperty((String) kv[i], (Boolean) v);
            else if (v instanceof JsonElement) o.add((String) kv[i], (JsonElement) v);
            else o.addProperty((String) kv[i], String.valueOf(v));
        }
        out.println(o);
        out.flush();
    }

    static byte[] un(String h) {
        byte[] b = new byte[h.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) (Character.digit(h.charAt(2 * i), 16) * 16 + Character.digit(h.charAt(2 * i + 1), 16));
        return b;
    }
    static byte[] bytes(JsonElement e) { return e == null || e.isJsonNull() ? null : un(e.getAsString()); }
    static byte[][] list(JsonElement e) {
        if (e == null || e.isJsonNull()) return null;
        JsonArray a = e.getAsJsonArray();
        byte[][] r = new byte[a.size()][];
        for (int i = 0; i < r.length; i++) r[i] = bytes(a.get(i));
        return r;
    }
    static long[] indices(JsonElement e) {
        if (e == null || e.isJsonNull()) return null;
        JsonArray a = e.getAsJsonArray();
        long[] r = new long[a.size()];
        for (int i = 0; i < r.length; i++) { String s = a.get(i).getAsString(); r[i] = s.startsWith("-") ? Long.parseLong(s) : Long.parseUnsignedLong(s); }
        return r;
    }
    static String digest(byte[][]... lists) throws Exception {
        MessageDigest d = MessageDigest.getInstance("SHA-256");
        for (byte[][] l : lists) for (byte[] b : l) d.update(b);
        StringBuilder s = new StringBuilder();
        for (byte b : d.digest()) s.append(String.format("%02x", b));
        return s.toString();
    }
    static int all(Object... args) { return Arrays.deepHashCode(args); }
    static boolean sized(byte[][] a, int n, int size) {
        if (a == null || a.length != n) return false;
        for (byte[] b : a) if (b == null || b.length != size) return false;
        return true;
    }
    static String both(CellsAndProofs r, JsonObject e) throws Exception {
        if (r == null || !sized(r.getCells(), 128, 2048) || !sized(r.getProofs(), 128, 48)) return null;
        String d = digest(r.getCells(), r.getProofs());
        // the flat form carries the same bytes
        if (!digest(new byte[][] {r.toBytes()}).equals(d)) return "other";
        return d.equals(e.get("digest").getAsString()) ? "same" : "other";
    }

    static void call(int th, int slot, int n, LibEthKZG ctx, JsonObject e) throws Exception {
        int id = ids.incrementAndGet();
        steps.incrementAndGet();
        String op = e.get("op").getAsString(), kind, same = "", text = "";
        byte[] blob = bytes(e.get("blob"));
        byte[][] coms = list(e.get("coms")), cells = list(e.get("cells")), proofs = list(e.get("proofs"));
        long[] idx = indices(e.get("idx"));
        int before = all(blob, coms, cells, proofs, idx);
        record("e", "begin", "t", th, "call", id, "slot", slot, "entry", n);
        try {
            switch (op) {
                case "commit": {
                    byte[] r = ctx.blobToKZGCommitment(blob);
                    kind = r != null && r.length == 48 ? "ok" : "shape";
                    if (kind.equals("ok")) same = digest(new byte[][] {r}).equals(e.get("digest").getAsString()) ? "same" : "other";
                    break;
                }
                case "compute": same = both(ctx.computeCellsAndKZGProofs(blob), e); kind = same == null ? "shape" : "ok"; break;
                case "recover": same = both(ctx.recoverCellsAndKZGProofs(idx, cells), e); kind = same == null ? "shape" : "ok"; break;
                default: kind = ctx.verifyCellKZGProofBatch(coms, idx, cells, proofs) ? "ok" : "invalid"; same = "same";
            }
        } catch (RuntimeException x) {
            kind = "err";
            text = String.valueOf(x.getMessage());
        } catch (Throwable x) {
            kind = "thrown";
            text = x.toString();
        }
        record("e", "end", "t", th, "call", id, "slot", slot, "entry", n, "op", op, "lib", e.get("kind").getAsString(), "kind", kind, "digest", same == null ? "" : same,
                "inputs", all(blob, coms, cells, proofs, idx) == before, "text", text.substring(0, Math.min(100, text.length())));
    }

    static LibEthKZG make(int th, int slot, boolean pre, long threads) {
        // the constructor without arguments is one more way to make a context
        LibEthKZG c = pre && threads == 1 && ids.get() % 2 == 0 ? new LibEthKZG() : new LibEthKZG(pre, threads);
        record("e", "new", "t", th, "slot", slot, "ok", true);
        return c;
    }

    static void program(int th, JsonArray prog, LibEthKZG[] shared, JsonArray entries) throws Exception {
        Map<Integer, LibEthKZG> mine = new HashMap<>();
        for (JsonElement x : prog) {
            JsonArray it = x.getAsJsonArray();
            switch (it.get(0).getAsString()) {
                case "new": mine.put(it.get(1).getAsInt(), make(th, it.get(1).getAsInt(), it.get(2).getAsBoolean(), it.get(3).getAsLong())); break;
                case "close": mine.get(it.get(1).getAsInt()).close(); record("e", "close", "t", th, "slot", it.get(1).getAsInt()); break;
                case "free": {
                    // closing again has no effect
                    LibEthKZG c = mine.remove(it.get(1).getAsInt());
                    c.destroy();
                    c.close();
                    record("e", "drop", "t", th, "slot", it.get(1).getAsInt());
                    break;
                }
                case "call": {
                    int slot = it.get(1).getAsInt(), n = it.get(2).getAsInt();
                    call(th, slot, n, mine.containsKey(slot) ? mine.get(slot) : shared[slot - 1], entries.get(n - 1).getAsJsonObject());
                    break;
                }
                default:
            }
        }
    }

    /** Native threads whose name begins like that of the thread that made them. */
    static int named(String name) throws IOException {
        int n = 0;
        File[] ts = new File("/proc/self/task").listFiles();
        for (File f : ts) {
            try { if (new String(Files.readAllBytes(f.toPath().resolve("comm"))).trim().equals(name)) n++; } catch (IOException x) { /* it ended */ }
        }
        return n;
    }
    /** Contexts that come and go: their threads go with them. */
    static void lives() throws Exception {
        int cycles = 6, threads = 3;
        int[] r = new int[2];
        Thread t = new Thread(() -> {
            try {
                new LibEthKZG(false, threads).close();
                Thread.sleep(500);
                r[0] = named("kzglives");
                for (int i = 0; i < cycles; i++) { LibEthKZG c = new LibEthKZG(false, threads); if (i % 2 == 0) c.close(); else c.destroy(); }
                for (int i = 0; i < 100; i++) { r[1] = named("kzglives"); if (r[1] <= r[0]) break; Thread.sleep(100); }
            } catch (Exception x) { throw new RuntimeException(x); }
        }, "kzglives");
        t.start();
        t.join();
        record("e", "lives", "t", 0, "cycles", cycles, "before", r[0], "after", r[1], "released", r[1] - r[0] < cycles);
    }

    public static void main(String[] args) throws Exception {
        out = new PrintWriter(new BufferedWriter(new FileWriter(args[0])));
        int runs = 0;
        List<Throwable> bad = Collections.synchronizedList(new ArrayList<>());
        JsonArray consts = new JsonArray();
        for (int x : new int[] {LibEthKZG.BYTES_PER_COMMITMENT, LibEthKZG.BYTES_PER_PROOF, LibEthKZG.BYTES_PER_FIELD_ELEMENT, LibEthKZG.BYTES_PER_BLOB, LibEthKZG.MAX_NUM_COLUMNS, LibEthKZG.BYTES_PER_CELL}) consts.add(x);
        for (String line : Files.readAllLines(Paths.get(args[1]))) {
            if (line.trim().isEmpty()) continue;
            JsonObject h = new JsonParser().parse(line).getAsJsonObject();
            record("e", "case", "case", runs, "id", h.get("id").getAsString(), "plan", h.get("plan").getAsString(), "consts", consts);
            if (runs == 0) lives();
            JsonArray sh = h.getAsJsonArray("shared"), progs = h.getAsJsonArray("progs"), entries = h.getAsJsonArray("entries");
            LibEthKZG[] shared = new LibEthKZG[sh.size()];
            for (int k = 0; k < shared.length; k++) shared[k] = make(0, k + 1, sh.get(k).getAsJsonArray().get(0).getAsBoolean(), sh.get(k).getAsJsonArray().get(1).getAsLong());
            List<Thread> ts = new ArrayList<>();
            for (int t = 0; t < progs.size(); t++) {
                int th = t + 1;
                Thread x = new Thread(() -> { try { program(th, progs.get(th - 1).getAsJsonArray(), shared, entries); } catch (Throwable e) { bad.add(e); } });
                ts.add(x);
                x.start();
            }
            for (Thread t : ts) t.join();
            if (!bad.isEmpty()) { bad.get(0).printStackTrace(); System.exit(3); }
            for (int k = shared.length; k > 0; k--) { shared[k - 1].close(); record("e", "close", "t", 0, "slot", k); record("e", "drop", "t", 0, "slot", k); }
            runs++;
        }
        record("e", "done");
        System.out.println();
        System.out.println("{\"runs\": " + runs + ", \"steps\": " + steps.get() + ", \"fails\": [], \"samples\": []}");
        System.exit(0);
    }
}
