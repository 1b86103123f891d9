// TLC operator overrides for module Real64: IEEE 754 doubles as <<hi, lo>>.
import tlc2.value.impl.*;

public class Real64 {
    private static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }

    private static Value v(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }

    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static int i(Value v) { return ((IntValue) v).val; }

    public static Value RInt(Value n) { return v(i(n)); }
    public static Value RFrac(Value a, Value c) { return v((double) i(a) / i(c)); }
    public static Value RDec(Value m, Value e) {
        return v(Double.parseDouble(i(m) + "e" + i(e)));
    }
    public static Value RAdd(Value a, Value c) { return v(d(a) + d(c)); }
    public static Value RSub(Value a, Value c) { return v(d(a) - d(c)); }
    public static Value RMul(Value a, Value c) { return v(d(a) * d(c)); }
    public static Value RDiv(Value a, Value c) { return v(d(a) / d(c)); }
    public static Value RNeg(Value a) { return v(-d(a)); }
    public static Value RAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value RExp(Value a) { return v(Math.exp(d(a))); }
    public static Value RLog(Value a) { return v(Math.log(d(a))); }
    public static Value RPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
    public static Value RFloat(Value a) { return v((double) (float) d(a)); }
    public static Value RDigamma(Value a) { return v(digamma(d(a))); }
    public static Value RLGamma(Value a) { return v(lgamma(d(a))); }
    public static Value RMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
    public static Value RMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }

    public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    public static Value RIsFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }

    // |a - c| <= tol * max(1, |a|, |c|), false for anything that is not finite
    public static Value RClose(Value a, Value c, Value tol) {
        double x = d(a), y = d(c);
        double m = Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
        return b(Math.abs(x - y) <= d(tol) * m);
    }

    // |a - c| <= rel * max(|a|, |c|) + abs
    public static Value RNear(Value a, Value c, Value rel, Value abs) {
        double x = d(a), y = d(c);
        return b(Math.abs(x - y) <= d(rel) * Math.max(Math.abs(x), Math.abs(y)) + d(abs));
    }

    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double x = 0;
        for (Value e : t.elems) x += d(e);
        return v(x);
    }

    public static Value RMaxOf(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double x = Double.NEGATIVE_INFINITY;
        for (Value e : t.elems) x = Math.max(x, d(e));
        return v(x);
    }

    public static Value RDot(Value s, Value r) {
        TupleValue t = (TupleValue) s.toTuple(), u = (TupleValue) r.toTuple();
        if (t.elems.length != u.elems.length) throw new RuntimeException("RDot: lengths differ");
        double x = 0;
        for (int k = 0; k < t.elems.length; k++) x += d(t.elems[k]) * d(u.elems[k]);
        return v(x);
    }

    public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }

    static double digamma(double x) {
        double r = 0;
        while (x < 12) { r -= 1 / x; x += 1; }
        double f = 1 / (x * x);
        return r + Math.log(x) - 0.5 / x
            - f * (1.0 / 12 - f * (1.0 / 120 - f * (1.0 / 252 - f * (1.0 / 240 - f * (1.0 / 132)))));
    }

    static double lgamma(double x) {
        double r = 0;
        while (x < 12) { r -= Math.log(x); x += 1; }
        double f = 1 / (x * x);
        return r + (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI)
            + (1.0 / 12 - f * (1.0 / 360 - f * (1.0 / 1260 - f * (1.0 / 1680)))) / x;
    }
}
