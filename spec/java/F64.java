import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** IEEE double arithmetic for TLC: numbers are strings with their shortest decimal form. */
public class F64 {
    private static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        String s = ((StringValue) v).val.toString();
        switch (s) {
            case "nan": case "NaN": return Double.NaN;
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
            default: return Double.parseDouble(s);
        }
    }
    private static Value v(double x) {
        if (x == 0) return new StringValue("0");
        if (x == Math.rint(x) && Math.abs(x) < 1e15) return new StringValue(Long.toString((long) x));
        if (Double.isNaN(x)) return new StringValue("NaN");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        return new StringValue(Double.toString(x));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value F(Value a) { return v(d(a)); }
    public static Value FAdd(Value a, Value b) { return v(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return v(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return v(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return v(d(a) / d(b)); }
    // as in IEEE 754 minNum, maxNum: a NaN argument is ignored
    public static Value FMin(Value a, Value b) { double x = d(a), y = d(b); return v(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.min(x, y)); }
    public static Value FMax(Value a, Value b) { double x = d(a), y = d(b); return v(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.max(x, y)); }
    public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value FSin(Value a) { return v(Math.sin(d(a))); }
    public static Value FCos(Value a) { return v(Math.cos(d(a))); }
    public static Value FAtan2(Value a, Value b) { return v(Math.atan2(d(a), d(b))); }
    public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FPick(Value seed, Value salt, Value n) {
        long h = 1125899906842597L + 31L * ((IntValue) seed).val;
        String t = salt.toString();
        for (int i = 0; i < t.length(); i++) h = 31 * h + t.charAt(i);
        h ^= h >>> 33; h *= 0xff51afd7ed558ccdL; h ^= h >>> 33; h *= 0xc4ceb9fe1a85ec53L; h ^= h >>> 33;
        return IntValue.gen(1 + (int) Math.floorMod(h, (long) ((IntValue) n).val));
    }
    public static Value FFinite(Value a) { return b(Double.isFinite(d(a))); }
}
