package kzg;

import java.math.BigInteger;
import tla2sany.semantic.SemanticNode;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An element of the BLS12-381 scalar field as an (atomic) TLC value. */
public final class FpValue extends Value {
    public static final BigInteger R = new BigInteger(
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);
    public final BigInteger v;

    public FpValue(BigInteger x) { this.v = x; }

    public static FpValue of(BigInteger x) { return new FpValue(x.mod(R)); }

    @Override public byte getKind() { return USERVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof FpValue) return v.compareTo(((FpValue) o).v);
        throw new EvalException(tlc2.output.EC.GENERAL, "Cannot compare a field element with " + o);
    }
    @Override public boolean equals(Object o) {
        if (o instanceof FpValue) return v.equals(((FpValue) o).v);
        throw new EvalException(tlc2.output.EC.GENERAL, "Cannot compare a field element with " + o);
    }
    @Override public boolean member(Value x) { throw new EvalException(tlc2.output.EC.GENERAL, "member of a field element"); }
    @Override public boolean isFinite() { throw new EvalException(tlc2.output.EC.GENERAL, "isFinite of a field element"); }
    @Override public Value takeExcept(ValueExcept e) {
        if (e.idx >= e.path.length) return (Value) e.value;
        throw new EvalException(tlc2.output.EC.GENERAL, "EXCEPT on a field element"); }
    @Override public Value takeExcept(ValueExcept[] e) {
        Value r = this;
        for (ValueExcept x : e) r = r.takeExcept(x);
        return r;
    }
    @Override public Value normalize() { return this; }
    @Override public boolean isNormalized() { return true; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public int size() { throw new EvalException(tlc2.output.EC.GENERAL, "size of a field element"); }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, USERVALUE);
        byte[] b = v.toByteArray();
        return FP64.Extend(fp, b, 0, b.length);
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
        return sb.append("\"").append(hex(v)).append("\"");
    }
    public static String hex(BigInteger v) {
        String s = v.toString(16);
        StringBuilder b = new StringBuilder(64);
        for (int i = s.length(); i < 64; i++) b.append('0');
        return b.append(s).toString();
    }
}
