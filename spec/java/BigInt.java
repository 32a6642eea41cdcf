import java.math.BigInteger;
import tlc2.value.impl.*;

// TLC module override for spec/BigInt.tla: unbounded integers.
public class BigInt {
    private static final BigInteger MIN = BigInteger.valueOf(Integer.MIN_VALUE);
    private static final BigInteger MAX = BigInteger.valueOf(Integer.MAX_VALUE);

    private static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        throw new RuntimeException("BigInt: not an integer: " + v);
    }
    private static Value mk(BigInteger b) {
        if (b.compareTo(MIN) >= 0 && b.compareTo(MAX) <= 0) return IntValue.gen(b.intValue());
        return new StringValue(b.toString());
    }
    private static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value Add(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) {
            long r = (long) ((IntValue) a).val + ((IntValue) b).val;
            if (r == (int) r) return IntValue.gen((int) r);
        }
        return mk(big(a).add(big(b)));
    }
    public static Value Sub(Value a, Value b) { return mk(big(a).subtract(big(b))); }
    public static Value Mul(Value a, Value b) { return mk(big(a).multiply(big(b))); }
    public static Value NegB(Value a) { return mk(big(a).negate()); }
    private static BigInteger fdiv(BigInteger x, BigInteger y) {
        BigInteger[] qr = x.divideAndRemainder(y);
        return (qr[1].signum() != 0 && (qr[1].signum() != y.signum())) ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static Value FDiv(Value a, Value b) { return mk(fdiv(big(a), big(b))); }
    public static Value FMod(Value a, Value b) {
        BigInteger x = big(a), y = big(b);
        return mk(x.subtract(y.multiply(fdiv(x, y))));
    }
    public static Value TDiv(Value a, Value b) { return mk(big(a).divide(big(b))); }
    public static Value TMod(Value a, Value b) { return mk(big(a).remainder(big(b))); }
    private static int cmp(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue)
            return Integer.compare(((IntValue) a).val, ((IntValue) b).val);
        return big(a).compareTo(big(b));
    }
    public static Value Lt(Value a, Value b) { return bool(cmp(a, b) < 0); }
    public static Value Le(Value a, Value b) { return bool(cmp(a, b) <= 0); }
    public static Value Gt(Value a, Value b) { return bool(cmp(a, b) > 0); }
    public static Value Ge(Value a, Value b) { return bool(cmp(a, b) >= 0); }
    public static Value Eq(Value a, Value b) { return bool(cmp(a, b) == 0); }
    public static Value Ne(Value a, Value b) { return bool(cmp(a, b) != 0); }
    public static Value Min(Value a, Value b) { return cmp(a, b) <= 0 ? a : b; }
    public static Value Max(Value a, Value b) { return cmp(a, b) >= 0 ? a : b; }
    public static Value Abs(Value a) { return mk(big(a).abs()); }
    public static Value Pow2(Value n) { return mk(BigInteger.ONE.shiftLeft(big(n).intValue())); }
    public static Value Pow(Value a, Value n) { return mk(big(a).pow(big(n).intValue())); }
    public static Value Shl(Value a, Value n) { return mk(big(a).shiftLeft(big(n).intValue())); }
    public static Value Shr(Value a, Value n) { return mk(big(a).shiftRight(big(n).intValue())); }
    public static Value MulDiv(Value a, Value b, Value c) { return mk(big(a).multiply(big(b)).divide(big(c))); }
    public static Value ModPow2(Value a, Value n) {
        return mk(big(a).mod(BigInteger.ONE.shiftLeft(big(n).intValue())));
    }
    public static Value SumSeq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigInteger r = BigInteger.ZERO;
        for (Value v : t.elems) r = r.add(big(v));
        return mk(r);
    }

    // I80F48 arithmetic on raw bits: product rounded down, quotient truncated
    public static Value FxMul(Value a, Value b) { return mk(big(a).multiply(big(b)).shiftRight(48)); }
    public static Value FxDiv(Value a, Value b) { return mk(big(a).shiftLeft(48).divide(big(b))); }

    private static boolean same(Value a, Value b) {
        if (a == b) return true;
        if (a instanceof IntValue || b instanceof IntValue || a instanceof StringValue || b instanceof StringValue) {
            if (a instanceof IntValue && b instanceof IntValue) return ((IntValue) a).val == ((IntValue) b).val;
            // the representation is canonical: a number is never both an int and a string
            if (a instanceof StringValue && b instanceof StringValue) return ((StringValue) a).val.equals(((StringValue) b).val);
            return false;
        }
        if (a instanceof BoolValue || b instanceof BoolValue) return a instanceof BoolValue && b instanceof BoolValue && a.equals(b);
        RecordValue ra = a instanceof RecordValue ? (RecordValue) a : null, rb = b instanceof RecordValue ? (RecordValue) b : null;
        if (ra != null && rb != null) {
            ra.normalize(); rb.normalize();
            if (ra.names.length != rb.names.length) return false;
            for (int i = 0; i < ra.names.length; i++)
                if (!ra.names[i].equals(rb.names[i]) || !same(ra.values[i], rb.values[i])) return false;
            return true;
        }
        Value ta = (Value) a.toTuple(), tb = (Value) b.toTuple();
        if (ta != null && tb != null) {
            Value[] x = ((TupleValue) ta).elems, y = ((TupleValue) tb).elems;
            if (x.length != y.length) return false;
            for (int i = 0; i < x.length; i++) if (!same(x[i], y[i])) return false;
            return true;
        }
        return a.equals(b);
    }
    public static Value Same(Value a, Value b) { return bool(same(a, b)); }

    // rule accounting of the trace specifications
    private static final java.util.concurrent.ConcurrentHashMap<String, java.util.concurrent.atomic.LongAdder> HITS =
        new java.util.concurrent.ConcurrentHashMap<>();
    static {
        Runtime.getRuntime().addShutdownHook(new Thread(() -> {
            StringBuilder sb = new StringBuilder();
            for (String k : new java.util.TreeSet<>(HITS.keySet())) sb.append("HIT ").append(k).append(' ').append(HITS.get(k).sum()).append('\n');
            System.out.print(sb);
            System.out.flush();
        }));
    }
    private static String str(Value v) {
        return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString();
    }
    public static Value Hit(Value name) {
        HITS.computeIfAbsent(str(name), k -> new java.util.concurrent.atomic.LongAdder()).increment();
        return BoolValue.ValTrue;
    }
    public static Value Miss(Value line, Value name) {
        System.out.println("MISS " + str(line) + " " + str(name));
        return BoolValue.ValTrue;
    }
}
