// Module override for Fp.tla.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Fp {
    static double d(Value v) {
        String s = ((StringValue) v).val.toString();
        if (s.length() != 16) throw new RuntimeException("not a double: " + s);
        return Double.longBitsToDouble(Long.parseUnsignedLong(s, 16));
    }
    static final char[] HX = "0123456789abcdef".toCharArray();
    static String hex(double x) {
        long b = Double.doubleToRawLongBits(x);
        char[] c = new char[16];
        for (int i = 15; i >= 0; i--) { c[i] = HX[(int) (b & 15)]; b >>>= 4; }
        return new String(c);
    }
    static Value v(double x) { return new StringValue(hex(x)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static String s(Value v) { return ((StringValue) v).val.toString(); }
    static Value[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return t.elems;
    }
    static double[] ds(Value v) {
        Value[] e = seq(v);
        double[] r = new double[e.length];
        for (int i = 0; i < e.length; i++) r[i] = d(e[i]);
        return r;
    }
    static Value vs(double... x) {
        Value[] r = new Value[x.length];
        for (int i = 0; i < x.length; i++) r[i] = v(x[i]);
        return new TupleValue(r);
    }
    public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value FNeg(Value x) { return v(-d(x)); }
    public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value FMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
    public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value FFinite(Value x) { double z = d(x); return b(!Double.isNaN(z) && !Double.isInfinite(z)); }
    public static Value FInt(Value i) { return v(((IntValue) i).val); }
    public static Value FDec(Value i) { return v(Double.parseDouble(s(i))); }
    public static Value FRat(Value i, Value j) { return v((double) ((IntValue) i).val / ((IntValue) j).val); }
    public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
    public static Value FPi() { return v(Math.PI); }
    public static Value FSin(Value x) { return v(Math.sin(d(x))); }
    public static Value FCos(Value x) { return v(Math.cos(d(x))); }
    public static Value FSum(Value x) { double r = 0; for (double z : ds(x)) r += z; return v(r); }
    public static Value FAbsSum(Value x) { double r = 0; for (double z : ds(x)) r += Math.abs(z); return v(r); }
    public static Value FMaxAbs(Value x) { double r = 0; for (double z : ds(x)) r = Math.max(r, Math.abs(z)); return v(r); }
    public static Value FDot(Value x, Value y) {
        double[] a = ds(x), c = ds(y); double r = 0;
        if (a.length != c.length) throw new RuntimeException("FDot lengths");
        for (int i = 0; i < a.length; i++) r += a[i] * c[i];
        return v(r);
    }
    static boolean close(double x, double y, double scale, double rel, double abs) {
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= rel * scale + abs;
    }
    public static Value FClose(Value x, Value y, Value rel, Value abs) {
        double a = d(x), c = d(y);
        return b(close(a, c, Math.max(Math.abs(a), Math.abs(c)), d(rel), d(abs)));
    }
    public static Value FCloseSeq(Value x, Value y, Value rel, Value abs) {
        double[] a = ds(x), c = ds(y); double m = 0;
        if (a.length != c.length) return b(false);
        for (double z : a) m = Math.max(m, Math.abs(z));
        for (double z : c) m = Math.max(m, Math.abs(z));
        for (int i = 0; i < a.length; i++) if (!close(a[i], c[i], m, d(rel), d(abs))) return b(false);
        return b(true);
    }
    public static Value FEqSeq(Value x, Value y) {
        double[] a = ds(x), c = ds(y);
        if (a.length != c.length) return b(false);
        for (int i = 0; i < a.length; i++) if (a[i] != c[i]) return b(false);
        return b(true);
    }
    public static Value VAdd(Value x, Value y) {
        double[] a = ds(x), c = ds(y);
        double[] r = new double[a.length];
        for (int i = 0; i < r.length; i++) r[i] = a[i] + c[i];
        return vs(r);
    }
    public static Value VSub(Value x, Value y) {
        double[] a = ds(x), c = ds(y);
        double[] r = new double[a.length];
        for (int i = 0; i < r.length; i++) r[i] = a[i] - c[i];
        return vs(r);
    }
    public static Value VScale(Value f, Value x) {
        double[] a = ds(x); double k = d(f);
        double[] r = new double[a.length];
        for (int i = 0; i < r.length; i++) r[i] = k * a[i];
        return vs(r);
    }
    public static Value VCross(Value x, Value y) {
        double[] a = ds(x), c = ds(y);
        return vs(a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0]);
    }
    public static Value VNorm(Value x) { double r = 0; for (double z : ds(x)) r += z * z; return v(Math.sqrt(r)); }
    public static Value MatVec(Value m, Value x) {
        Value[] rows = seq(m); double[] a = ds(x);
        double[] r = new double[rows.length];
        for (int i = 0; i < r.length; i++) {
            double[] w = ds(rows[i]);
            for (int j = 0; j < a.length; j++) r[i] += w[j] * a[j];
        }
        return vs(r);
    }
    static BigInteger B(Value x) { return new BigInteger(s(x)); }
    static Value V(BigInteger x) { return new StringValue(x.toString()); }
    public static Value BAdd(Value x, Value y) { return V(B(x).add(B(y))); }
    public static Value BSub(Value x, Value y) { return V(B(x).subtract(B(y))); }
    public static Value BMul(Value x, Value y) { return V(B(x).multiply(B(y))); }
    public static Value BLt(Value x, Value y) { return b(B(x).compareTo(B(y)) < 0); }
    public static Value BInt(Value i) { return new StringValue(Integer.toString(((IntValue) i).val)); }
    public static Value BHex(Value x) { return V(new BigInteger(s(x), 16)); }
    public static Value Chars(Value x) {
        TupleValue t = (TupleValue) x.toTuple(); StringBuilder r = new StringBuilder();
        for (Value c : t.elems) r.append((char) ((IntValue) c).val);
        return new StringValue(r.toString());
    }
    public static Value HInt(Value x) { BigInteger i = new BigInteger(s(x), 16); return IntValue.gen(i.bitLength() > 31 ? -1 : i.intValue()); }
    public static Value StrLt(Value x, Value y) { return b(s(x).compareTo(s(y)) < 0); }
    public static Value LowerS(Value x) { return new StringValue(s(x).toLowerCase()); }
    public static Value StrLen(Value x) { return IntValue.gen(s(x).length()); }
    public static Value StrAt(Value x, Value i) { int k = ((IntValue) i).val; return new StringValue(s(x).substring(k - 1, k)); }
    public static Value StrSub(Value x, Value i, Value j) { return new StringValue(s(x).substring(((IntValue) i).val - 1, ((IntValue) j).val)); }
    // x, with every function in it evaluated (TLC evaluates the body of a
    // function constructor anew at each application otherwise)
    public static Value Strict(Value x) {
        if (x instanceof FcnLambdaValue) x = (Value) x.toFcnRcd();
        if (x instanceof FcnRcdValue) {
            Value t = (Value) x.toTuple();
            if (t != null) x = t;
            else { Value[] e = ((FcnRcdValue) x).values; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); return x; }
        }
        if (x instanceof TupleValue) { Value[] e = ((TupleValue) x).elems; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); }
        else if (x instanceof RecordValue) { Value[] e = ((RecordValue) x).values; for (int i = 0; i < e.length; i++) e[i] = Strict(e[i]); }
        return x;
    }
}
