package kzg;

import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.security.MessageDigest;
import java.util.*;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalException;
import tlc2.value.impl.*;

/** Java realisations of the operators of modules BlsField and Emit. */
public class Overrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { Overrides.class }; }

    private static BigInteger b(Value v) {
        if (v instanceof FpValue) return ((FpValue) v).v;
        throw new EvalException(tlc2.output.EC.GENERAL, "not a field element: " + v);
    }

    @TLAPlusOperator(identifier = "BlsInt", module = "Field", warn = false)
    public static Value fint(IntValue n) { return FpValue.of(BigInteger.valueOf(n.val)); }
    @TLAPlusOperator(identifier = "BlsAdd", module = "Field", warn = false)
    public static Value add(Value x, Value y) {
        BigInteger s = b(x).add(b(y));
        return new FpValue(s.compareTo(FpValue.R) >= 0 ? s.subtract(FpValue.R) : s);
    }
    @TLAPlusOperator(identifier = "BlsSub", module = "Field", warn = false)
    public static Value sub(Value x, Value y) {
        BigInteger s = b(x).subtract(b(y));
        return new FpValue(s.signum() < 0 ? s.add(FpValue.R) : s);
    }
    @TLAPlusOperator(identifier = "BlsMul", module = "Field", warn = false)
    public static Value mul(Value x, Value y) { return new FpValue(b(x).multiply(b(y)).mod(FpValue.R)); }
    @TLAPlusOperator(identifier = "BlsInv", module = "Field", warn = false)
    public static Value inv(Value x) {
        if (b(x).signum() == 0) throw new EvalException(tlc2.output.EC.GENERAL, "inverse of zero");
        return new FpValue(b(x).modInverse(FpValue.R));
    }
    @TLAPlusOperator(identifier = "BlsPow", module = "Field", warn = false)
    public static Value pow(Value x, IntValue n) { return new FpValue(b(x).modPow(BigInteger.valueOf(n.val), FpValue.R)); }
    /** Generator of the subgroup of order n, n a power of two: the choice every implementation of EIP-4844 makes. */
    @TLAPlusOperator(identifier = "BlsRoot", module = "Field", warn = false)
    public static Value root(IntValue n) {
        return new FpValue(BigInteger.valueOf(7).modPow(
            FpValue.R.subtract(BigInteger.ONE).divide(BigInteger.valueOf(n.val)), FpValue.R));
    }
    @TLAPlusOperator(identifier = "BlsHex", module = "Field", warn = false)
    public static Value hex(Value x) { return new StringValue(FpValue.hex(b(x))); }
    @TLAPlusOperator(identifier = "BlsFromHex", module = "Field", warn = false)
    public static Value fromHex(StringValue s) { return FpValue.of(new BigInteger(s.val.toString(), 16)); }
    /** SHA-256 based pseudo-random element, a function of the two arguments only. */
    @TLAPlusOperator(identifier = "BlsRand", module = "Field", warn = false)
    public static Value rand(IntValue seed, IntValue i) throws Exception {
        byte[] d = MessageDigest.getInstance("SHA-256").digest(
            ("kzg|" + seed.val + "|" + i.val).getBytes(StandardCharsets.UTF_8));
        byte[] e = MessageDigest.getInstance("SHA-256").digest(d);
        byte[] w = new byte[48];
        System.arraycopy(d, 0, w, 0, 32);
        System.arraycopy(e, 0, w, 32, 16);
        return FpValue.of(new BigInteger(1, w));
    }
    @TLAPlusOperator(identifier = "BlsSeqHex", module = "Field", warn = false)
    public static Value seqHex(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        StringBuilder sb = new StringBuilder(64 * t.elems.length);
        for (Value v : t.elems) sb.append(FpValue.hex(b(v)));
        return new StringValue(sb.toString());
    }

    /** 64 hexadecimal digits of the non-canonical representative a + j*r; "" when it needs more than 256 bits. */
    @TLAPlusOperator(identifier = "BlsHexAlias", module = "Field", warn = false)
    public static Value hexAlias(Value a, IntValue j) {
        BigInteger x = b(a).add(FpValue.R.multiply(BigInteger.valueOf(j.val)));
        if (x.bitLength() > 256) return new StringValue("");
        String h = x.toString(16);
        return new StringValue("0".repeat(64 - h.length()) + h);
    }
    /** The element whose little-endian 32-byte encoding is the big-endian encoding of a; a itself if there is none. */
    @TLAPlusOperator(identifier = "BlsSwap", module = "Field", warn = false)
    public static Value swap(Value a) {
        byte[] h = new BigInteger(FpValue.hex(b(a)), 16).toByteArray();
        byte[] w = new byte[32];
        for (int i = 0; i < h.length && i < 32; i++) w[i] = h[h.length - 1 - i];
        BigInteger x = new BigInteger(1, w);
        return x.compareTo(FpValue.R) < 0 ? new FpValue(x) : a;
    }

    // ---- Kernel: fast evaluation of the definitions in KernelDefs.tla over the real field ----
    private static final BigInteger R = FpValue.R;
    private static BigInteger[] arr(Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems;
        BigInteger[] a = new BigInteger[e.length];
        for (int i = 0; i < a.length; i++) a[i] = b(e[i]);
        return a;
    }
    private static Value seq(BigInteger[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = new FpValue(a[i]);
        return new TupleValue(e);
    }
    private static BigInteger addm(BigInteger x, BigInteger y) { BigInteger s = x.add(y); return s.compareTo(R) >= 0 ? s.subtract(R) : s; }
    private static BigInteger subm(BigInteger x, BigInteger y) { BigInteger s = x.subtract(y); return s.signum() < 0 ? s.add(R) : s; }
    private static BigInteger[] pows(BigInteger x, int n) {
        BigInteger[] p = new BigInteger[n];
        BigInteger a = BigInteger.ONE;
        for (int i = 0; i < n; i++) { p[i] = a; a = a.multiply(x).mod(R); }
        return p;
    }
    private static BigInteger horner(BigInteger[] p, BigInteger x) {
        BigInteger acc = BigInteger.ZERO;
        for (int i = p.length - 1; i >= 0; i--) acc = acc.multiply(x).add(p[i]).mod(R);
        return acc;
    }
    private static final java.util.concurrent.ConcurrentHashMap<Integer, BigInteger[]> ROOTS = new java.util.concurrent.ConcurrentHashMap<>();
    private static BigInteger[] roots(int n) {
        return ROOTS.computeIfAbsent(n, k -> pows(BigInteger.valueOf(7).modPow(R.subtract(BigInteger.ONE).divide(BigInteger.valueOf(k)), R), k));
    }
    private static BigInteger[] dft(BigInteger[] a) {
        int n = a.length;
        if (n == 1) return a;
        int h = n / 2;
        BigInteger[] e = new BigInteger[h], o = new BigInteger[h];
        for (int i = 0; i < h; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
        e = dft(e);
        o = dft(o);
        BigInteger[] w = roots(n), r = new BigInteger[n];
        for (int i = 0; i < h; i++) {
            BigInteger t = w[i].multiply(o[i]).mod(R);
            r[i] = addm(e[i], t);
            r[i + h] = subm(e[i], t);
        }
        return r;
    }
    @TLAPlusOperator(identifier = "JPEval", module = "Kernel", warn = false)
    public static Value jpeval(Value p, Value x) { return new FpValue(horner(arr(p), b(x))); }
    @TLAPlusOperator(identifier = "JPowers", module = "Kernel", warn = false)
    public static Value jpowers(Value x, IntValue n) { return seq(pows(b(x), n.val)); }
    @TLAPlusOperator(identifier = "JFFT", module = "Kernel", warn = false)
    public static Value jfft(Value p, IntValue n) {
        BigInteger[] a = arr(p);
        if (a.length > n.val) throw new EvalException(tlc2.output.EC.GENERAL, "polynomial longer than the domain");
        BigInteger[] c = Arrays.copyOf(a, n.val);
        for (int i = a.length; i < c.length; i++) c[i] = BigInteger.ZERO;
        return seq(dft(c));
    }
    @TLAPlusOperator(identifier = "JIFFT", module = "Kernel", warn = false)
    public static Value jifft(Value v) {
        BigInteger[] f = dft(arr(v));
        int n = f.length;
        BigInteger s = BigInteger.valueOf(n).modInverse(R);
        BigInteger[] r = new BigInteger[n];
        for (int i = 0; i < n; i++) r[i] = f[(n - i) % n].multiply(s).mod(R);
        return seq(r);
    }
    @TLAPlusOperator(identifier = "JScalePowers", module = "Kernel", warn = false)
    public static Value jscale(Value v, Value g) {
        BigInteger[] a = arr(v);
        BigInteger w = BigInteger.ONE, x = b(g);
        for (int i = 0; i < a.length; i++) { a[i] = a[i].multiply(w).mod(R); w = w.multiply(x).mod(R); }
        return seq(a);
    }
    @TLAPlusOperator(identifier = "JBitRev", module = "Kernel", warn = false)
    public static Value jbitrev(Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems, r = new Value[e.length];
        int bits = 31 - Integer.numberOfLeadingZeros(Math.max(e.length, 1));
        for (int i = 0; i < e.length; i++) r[i] = e[bits == 0 ? i : Integer.reverse(i) >>> (32 - bits)];
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "JRemXmC", module = "Kernel", warn = false)
    public static Value jrem(Value p, IntValue m, Value c) {
        BigInteger[] a = arr(p), r = new BigInteger[m.val];
        BigInteger k = b(c);
        for (int j = 0; j < m.val; j++) {
            BigInteger acc = BigInteger.ZERO;
            int last = j < a.length ? j + m.val * ((a.length - 1 - j) / m.val) : -1;
            for (int i = last; i >= 0; i -= m.val) acc = acc.multiply(k).add(a[i]).mod(R);
            r[j] = acc;
        }
        return seq(r);
    }
    @TLAPlusOperator(identifier = "JDot", module = "Kernel", warn = false)
    public static Value jdot(Value x, Value y) {
        BigInteger[] a = arr(x), c = arr(y);
        BigInteger acc = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) acc = acc.add(a[i].multiply(c[i]));
        return new FpValue(acc.mod(R));
    }
    @TLAPlusOperator(identifier = "JPMul", module = "Kernel", warn = false)
    public static Value jpmul(Value x, Value y) {
        BigInteger[] a = arr(x), c = arr(y);
        if (a.length == 0 || c.length == 0) return seq(new BigInteger[0]);
        BigInteger[] r = new BigInteger[a.length + c.length - 1];
        Arrays.fill(r, BigInteger.ZERO);
        for (int i = 0; i < a.length; i++) for (int j = 0; j < c.length; j++) r[i + j] = r[i + j].add(a[i].multiply(c[j]));
        for (int i = 0; i < r.length; i++) r[i] = r[i].mod(R);
        return seq(r);
    }
    @TLAPlusOperator(identifier = "JRandSeq", module = "Kernel", warn = false)
    public static Value jrandseq(IntValue s, IntValue base, IntValue n) throws Exception {
        Value[] e = new Value[n.val];
        for (int i = 0; i < e.length; i++) e[i] = rand(s, IntValue.gen(base.val + i + 1));
        return new TupleValue(e);
    }

    // ---- Emit ----
    private static final Map<String, Writer> OUT = new HashMap<>();
    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> {
            synchronized (OUT) { for (Writer w : OUT.values()) try { w.close(); } catch (IOException e) { } }
        }));
    }
    private static void json(StringBuilder sb, Value v) {
        if (v instanceof FpValue) { sb.append('"').append(FpValue.hex(((FpValue) v).v)).append('"'); return; }
        if (v instanceof IntValue) { sb.append(((IntValue) v).val); return; }
        if (v instanceof BoolValue) { sb.append(((BoolValue) v).val); return; }
        if (v instanceof StringValue) { str(sb, ((StringValue) v).val.toString()); return; }
        if (v instanceof ModelValue) { str(sb, ((ModelValue) v).val.toString()); return; }
        if (v instanceof SetEnumValue || v instanceof IntervalValue || v instanceof SubsetValue || v instanceof SetPredValue
            || v instanceof SetCupValue || v instanceof SetCapValue || v instanceof SetDiffValue) {
            SetEnumValue s = (SetEnumValue) v.toSetEnum();
            s.normalize();
            sb.append('[');
            for (int i = 0; i < s.elems.size(); i++) { if (i > 0) sb.append(','); json(sb, s.elems.elementAt(i)); }
            sb.append(']');
            return;
        }
        if (v instanceof RecordValue) { rec(sb, (RecordValue) v); return; }
        Value t = v.toTuple();
        if (t != null) {
            sb.append('[');
            Value[] es = ((TupleValue) t).elems;
            for (int i = 0; i < es.length; i++) { if (i > 0) sb.append(','); json(sb, es[i]); }
            sb.append(']');
            return;
        }
        Value r = v.toRcd();
        if (r != null) { rec(sb, (RecordValue) r); return; }
        throw new EvalException(tlc2.output.EC.GENERAL, "cannot convert to JSON: " + v);
    }
    private static void rec(StringBuilder sb, RecordValue r) {
        sb.append('{');
        for (int i = 0; i < r.names.length; i++) {
            if (i > 0) sb.append(',');
            str(sb, r.names[i].toString());
            sb.append(':');
            json(sb, r.values[i]);
        }
        sb.append('}');
    }
    private static void str(StringBuilder sb, String s) {
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }
    /** Appends v as one JSON line to the file named f in the directory given by -Dkzg.out. */
    @TLAPlusOperator(identifier = "Emit", module = "Emit", warn = false)
    public static Value emit(StringValue f, Value v) throws IOException {
        StringBuilder sb = new StringBuilder();
        json(sb, v);
        sb.append('\n');
        synchronized (OUT) {
            String name = f.val.toString();
            Writer w = OUT.get(name);
            if (w == null) {
                File p = new File(System.getProperty("kzg.out", "."), name);
                w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(p, false), StandardCharsets.UTF_8), 1 << 16);
                OUT.put(name, w);
            }
            w.write(sb.toString());
        }
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "SeedEnv", module = "Emit", warn = false)
    public static Value seed() {
        String s = System.getenv("VERIF_SEED");
        long x = 1;
        try { x = Long.parseLong(s.trim()); } catch (Exception e) { if (s != null) x = s.hashCode(); }
        return IntValue.gen((int) Math.floorMod(x, 1_000_000_007L));
    }
    @TLAPlusOperator(identifier = "Hash31", module = "Emit", warn = false)
    public static Value hash31(Value a, Value c) throws Exception {
        byte[] d = MessageDigest.getInstance("SHA-256").digest(
            ("h31|" + a.toString() + "|" + c.toString()).getBytes(StandardCharsets.UTF_8));
        int x = ((d[0] & 0x7f) << 24) | ((d[1] & 0xff) << 16) | ((d[2] & 0xff) << 8) | (d[3] & 0xff);
        return IntValue.gen(x);
    }

    private static final java.util.concurrent.ConcurrentHashMap<String, Value> ONCE = new java.util.concurrent.ConcurrentHashMap<>();
    /** Once(key, val) == val, evaluated the first time only; val must be constant and determined by key. */
    @tlc2.overrides.Evaluation(definition = "Once", module = "Emit", warn = false, silent = true)
    public static Value once(tlc2.tool.impl.Tool tool, tla2sany.semantic.ExprOrOpArgNode[] args, tlc2.util.Context c,
                             tlc2.tool.TLCState s0, tlc2.tool.TLCState s1, int control, tlc2.tool.coverage.CostModel cm) {
        String k = tool.eval(args[0], c, s0, s1, control, cm).toString();
        Value v = ONCE.get(k);
        if (v == null) {
            v = (Value) tool.eval(args[1], c, s0, s1, control, cm);
            if (v instanceof FcnLambdaValue) v = ((FcnLambdaValue) v).toFcnRcd();
            v.deepNormalize();
            ONCE.put(k, v);
        }
        return v;
    }
}
