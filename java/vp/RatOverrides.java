package vp;

import java.math.BigInteger;
import java.util.Arrays;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates the operators of module Rat with BigInteger arithmetic. */
public class RatOverrides implements ITLCOverrides {

    @Override
    public Class[] get() {
        return new Class[] { RatOverrides.class };
    }

    private static final int LIMB = 30;

    /** The pair <<n, d>> in lowest terms, which also caches n and d. */
    static final class RatValue extends TupleValue {
        final BigInteger n, d;

        RatValue(BigInteger n, BigInteger d) {
            super(new Value[] { enc(n), enc(d) });
            this.n = n;
            this.d = d;
        }
    }

    static Value enc(BigInteger v) {
        BigInteger a = v.abs();
        int limbs = (a.bitLength() + LIMB - 1) / LIMB;
        Value[] elems = new Value[limbs + 1];
        elems[0] = IntValue.gen(v.signum());
        for (int i = 0; i < limbs; i++) {
            int limb = a.intValue() & ((1 << LIMB) - 1);
            elems[i + 1] = IntValue.gen(limb);
            a = a.shiftRight(LIMB);
        }
        return new TupleValue(elems);
    }

    static BigInteger dec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger a = BigInteger.ZERO;
        for (int i = t.elems.length - 1; i >= 1; i--) {
            a = a.shiftLeft(LIMB).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        }
        return ((IntValue) t.elems[0]).val < 0 ? a.negate() : a;
    }

    static RatValue rat(Value v) {
        if (v instanceof RatValue) {
            return (RatValue) v;
        }
        TupleValue t = (TupleValue) v.toTuple();
        return new RatValue(dec(t.elems[0]), dec(t.elems[1]));
    }

    static RatValue norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) {
            throw new ArithmeticException("Rat: division by zero");
        }
        if (d.signum() < 0) {
            n = n.negate();
            d = d.negate();
        }
        if (n.signum() == 0) {
            return new RatValue(BigInteger.ZERO, BigInteger.ONE);
        }
        int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) {
            n = n.shiftRight(tz);
            d = d.shiftRight(tz);
        }
        // a power of two has nothing else in common with n
        if (d.bitLength() - 1 != d.getLowestSetBit()) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) {
                n = n.divide(g);
                d = d.divide(g);
            }
        }
        return new RatValue(n, d);
    }

    private static int i(Value v) {
        return ((IntValue) v).val;
    }

    private static Value bool(boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
    public static Value rInt(Value a) {
        return new RatValue(BigInteger.valueOf(i(a)), BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value rFrac(Value a, Value b) {
        return norm(BigInteger.valueOf(i(a)), BigInteger.valueOf(i(b)));
    }

    @TLAPlusOperator(identifier = "RFloat", module = "Rat", warn = false)
    public static Value rFloat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigInteger m = BigInteger.valueOf(i(t.elems[0])).shiftLeft(27).add(BigInteger.valueOf(i(t.elems[1])));
        int e = i(t.elems[2]);
        return e >= 0 ? norm(m.shiftLeft(e), BigInteger.ONE) : norm(m, BigInteger.ONE.shiftLeft(-e));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(Value x, Value y) {
        RatValue a = rat(x), b = rat(y);
        if (a.d.equals(b.d)) {
            return norm(a.n.add(b.n), a.d);
        }
        return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(Value x, Value y) {
        RatValue a = rat(x), b = rat(y);
        if (a.d.equals(b.d)) {
            return norm(a.n.subtract(b.n), a.d);
        }
        return norm(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(Value x, Value y) {
        RatValue a = rat(x), b = rat(y);
        return norm(a.n.multiply(b.n), a.d.multiply(b.d));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(Value x, Value y) {
        RatValue a = rat(x), b = rat(y);
        return norm(a.n.multiply(b.d), a.d.multiply(b.n));
    }

    private static int cmp(Value x, Value y) {
        RatValue a = rat(x), b = rat(y);
        if (a.n.signum() != b.n.signum()) {
            return Integer.compare(a.n.signum(), b.n.signum());
        }
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rLe(Value x, Value y) {
        return bool(cmp(x, y) <= 0);
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rLt(Value x, Value y) {
        return bool(cmp(x, y) < 0);
    }

    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value rPow(Value x, Value k) {
        RatValue a = rat(x);
        // lowest terms stay lowest terms
        return new RatValue(a.n.pow(i(k)), a.d.pow(i(k)));
    }

    @TLAPlusOperator(identifier = "RNumer", module = "Rat", warn = false)
    public static Value rNumer(Value x) {
        return new RatValue(rat(x).n, BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RPair", module = "Rat", warn = false)
    public static Value rPair(Value x) {
        RatValue a = rat(x);
        return new TupleValue(IntValue.gen(a.n.intValueExact()), IntValue.gen(a.d.intValueExact()));
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rFloor(Value x) {
        RatValue a = rat(x);
        BigInteger[] qr = a.n.divideAndRemainder(a.d);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return IntValue.gen(q.intValueExact());
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value rSqrt(Value x, Value p) {
        RatValue a = rat(x);
        BigInteger q = a.n.shiftLeft(2 * i(p)).divide(a.d);
        return norm(q.sqrt(), BigInteger.ONE.shiftLeft(i(p)));
    }

    @TLAPlusOperator(identifier = "RSorted", module = "Rat", warn = false)
    public static Value rSorted(Value s) {
        Value[] elems = ((TupleValue) s.toTuple()).elems.clone();
        Arrays.sort(elems, (x, y) -> cmp(x, y));
        return new TupleValue(elems);
    }
}
