package vgpa;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * The arithmetic behind HPReal.tla: real numbers written as decimal strings,
 * rounded to DIGITS significant digits. Nothing in here knows anything about
 * VGPA; every formula of the specification is in the .tla files.
 */
public class HPReal {
    private static final int DIGITS = 60;
    private static final MathContext MC = new MathContext(DIGITS, RoundingMode.HALF_EVEN);
    private static final BigDecimal TWO = BigDecimal.valueOf(2);

    private static BigDecimal num(final Value v) {
        if (v instanceof StringValue) {
            return new BigDecimal(((StringValue) v).val.toString());
        }
        if (v instanceof IntValue) {
            return BigDecimal.valueOf(((IntValue) v).val);
        }
        throw new RuntimeException("HPReal: not a number: " + v);
    }

    private static Value out(final BigDecimal d) {
        final BigDecimal r = d.round(MC);
        if (r.signum() == 0) {
            return new StringValue("0");
        }
        return new StringValue(r.stripTrailingZeros().toString());
    }

    private static TupleValue tuple(final Value v) {
        final Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("HPReal: not a sequence: " + v);
        }
        return (TupleValue) t;
    }

    @TLAPlusOperator(identifier = "RAdd", module = "HPReal", warn = false)
    public static Value add(final Value a, final Value b) {
        return out(num(a).add(num(b), MC));
    }

    @TLAPlusOperator(identifier = "RSub", module = "HPReal", warn = false)
    public static Value sub(final Value a, final Value b) {
        return out(num(a).subtract(num(b), MC));
    }

    @TLAPlusOperator(identifier = "RMul", module = "HPReal", warn = false)
    public static Value mul(final Value a, final Value b) {
        return out(num(a).multiply(num(b), MC));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "HPReal", warn = false)
    public static Value div(final Value a, final Value b) {
        return out(num(a).divide(num(b), MC));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "HPReal", warn = false)
    public static Value neg(final Value a) {
        return out(num(a).negate());
    }

    @TLAPlusOperator(identifier = "RAbs", module = "HPReal", warn = false)
    public static Value abs(final Value a) {
        return out(num(a).abs());
    }

    @TLAPlusOperator(identifier = "RLt", module = "HPReal", warn = false)
    public static Value lt(final Value a, final Value b) {
        return num(a).compareTo(num(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RLe", module = "HPReal", warn = false)
    public static Value le(final Value a, final Value b) {
        return num(a).compareTo(num(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "HPReal", warn = false)
    public static Value sqrt(final Value a) {
        return out(num(a).sqrt(MC));
    }

    @TLAPlusOperator(identifier = "RSum", module = "HPReal", warn = false)
    public static Value sum(final Value u) {
        final TupleValue t = tuple(u);
        BigDecimal s = BigDecimal.ZERO;
        for (int i = 0; i < t.size(); i++) {
            s = s.add(num(t.elems[i]), MC);
        }
        return out(s);
    }

    @TLAPlusOperator(identifier = "RDot", module = "HPReal", warn = false)
    public static Value dot(final Value u, final Value v) {
        final TupleValue t = tuple(u);
        final TupleValue w = tuple(v);
        if (t.size() != w.size()) {
            throw new RuntimeException("HPReal: RDot of different lengths");
        }
        BigDecimal s = BigDecimal.ZERO;
        for (int i = 0; i < t.size(); i++) {
            s = s.add(num(t.elems[i]).multiply(num(w.elems[i]), MC), MC);
        }
        return out(s);
    }

    /** Natural logarithm. */
    @TLAPlusOperator(identifier = "RLog", module = "HPReal", warn = false)
    public static Value log(final Value a) {
        return out(ln(num(a)));
    }

    private static final MathContext W = new MathContext(DIGITS + 15, RoundingMode.HALF_EVEN);
    private static BigDecimal ln2;

    private static BigDecimal atanh2(final BigDecimal z) { // 2 * atanh(z)
        final BigDecimal z2 = z.multiply(z, W);
        BigDecimal p = z;
        BigDecimal s = z;
        for (int k = 3;; k += 2) {
            p = p.multiply(z2, W);
            final BigDecimal t = p.divide(BigDecimal.valueOf(k), W);
            if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(DIGITS + 12)) < 0) {
                break;
            }
            s = s.add(t, W);
        }
        return s.multiply(TWO, W);
    }

    private static BigDecimal ln(BigDecimal x) {
        if (x.signum() <= 0) {
            throw new RuntimeException("HPReal: RLog of " + x);
        }
        if (ln2 == null) {
            ln2 = atanh2(BigDecimal.ONE.divide(BigDecimal.valueOf(3), W));
        }
        // x = y * 2^k with y near 1.
        final int dec = x.precision() - x.scale();
        int k = (int) Math.round((dec - 1) / 0.30102999566398120);
        BigDecimal p = TWO.pow(Math.abs(k), W);
        BigDecimal y = k >= 0 ? x.divide(p, W) : x.multiply(p, W);
        while (y.compareTo(new BigDecimal("1.42")) > 0) {
            y = y.divide(TWO, W);
            k++;
        }
        while (y.compareTo(new BigDecimal("0.71")) < 0) {
            y = y.multiply(TWO, W);
            k--;
        }
        final BigDecimal z = y.subtract(BigDecimal.ONE).divide(y.add(BigDecimal.ONE), W);
        return atanh2(z).add(ln2.multiply(BigDecimal.valueOf(k), W), W);
    }

    /** Largest integer not above the number (which must fit in 32 bits). */
    @TLAPlusOperator(identifier = "RFloor", module = "HPReal", warn = false)
    public static Value floor(final Value a) {
        final BigInteger b = num(a).setScale(0, RoundingMode.FLOOR).toBigIntegerExact();
        return IntValue.gen(b.intValueExact());
    }

    // ---- vectors and matrices ------------------------------------------------
    // These only speed up operators that HPReal.tla defines in TLA+ (TLC would
    // otherwise evaluate the nested functions again for every element).

    private static TupleValue seq(final Value[] es) {
        return new TupleValue(es);
    }

    private interface Op2 {
        Value at(Value a, Value b);
    }

    private static Value zip(final Value u, final Value v, final Op2 op) {
        final TupleValue a = tuple(u);
        final TupleValue b = tuple(v);
        if (a.size() > b.size()) {
            throw new RuntimeException("HPReal: vectors of different lengths");
        }
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = op.at(a.elems[i], b.elems[i]);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "VAdd", module = "HPReal", warn = false)
    public static Value vadd(final Value u, final Value v) {
        return zip(u, v, HPReal::add);
    }

    @TLAPlusOperator(identifier = "VSub", module = "HPReal", warn = false)
    public static Value vsub(final Value u, final Value v) {
        return zip(u, v, HPReal::sub);
    }

    @TLAPlusOperator(identifier = "VScale", module = "HPReal", warn = false)
    public static Value vscale(final Value c, final Value u) {
        final TupleValue a = tuple(u);
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = mul(c, a.elems[i]);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "MAdd", module = "HPReal", warn = false)
    public static Value madd(final Value a, final Value b) {
        return zip(a, b, HPReal::vadd);
    }

    @TLAPlusOperator(identifier = "MSub", module = "HPReal", warn = false)
    public static Value msub(final Value a, final Value b) {
        return zip(a, b, HPReal::vsub);
    }

    @TLAPlusOperator(identifier = "MScale", module = "HPReal", warn = false)
    public static Value mscale(final Value c, final Value m) {
        final TupleValue a = tuple(m);
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = vscale(c, a.elems[i]);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "MT", module = "HPReal", warn = false)
    public static Value transpose(final Value m) {
        final TupleValue a = tuple(m);
        if (a.size() == 0) {
            return a;
        }
        final Value[][] rows = new Value[a.size()][];
        for (int i = 0; i < rows.length; i++) {
            rows[i] = tuple(a.elems[i]).elems;
        }
        final Value[] r = new Value[rows[0].length];
        for (int j = 0; j < r.length; j++) {
            final Value[] c = new Value[rows.length];
            for (int i = 0; i < c.length; i++) {
                c[i] = rows[i][j];
            }
            r[j] = seq(c);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "MatVec", module = "HPReal", warn = false)
    public static Value matVec(final Value m, final Value v) {
        final TupleValue a = tuple(m);
        final Value w = tuple(v);
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = dot(a.elems[i], w);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "MatMul", module = "HPReal", warn = false)
    public static Value matMul(final Value m, final Value n) {
        final TupleValue a = tuple(m);
        final Value t = transpose(n);
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = matVec(t, a.elems[i]);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "Outer", module = "HPReal", warn = false)
    public static Value outer(final Value u, final Value v) {
        final TupleValue a = tuple(u);
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = vscale(a.elems[i], v);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "TrMul", module = "HPReal", warn = false)
    public static Value trMul(final Value m, final Value n) {
        final TupleValue a = tuple(m);
        final TupleValue t = tuple(transpose(n));
        final Value[] r = new Value[a.size()];
        for (int i = 0; i < r.length; i++) {
            r[i] = dot(a.elems[i], t.elems[i]);
        }
        return sum(seq(r));
    }

    private static BigDecimal maxAbs(final Value v) {
        if (v instanceof StringValue || v instanceof IntValue) {
            return num(v).abs();
        }
        BigDecimal m = BigDecimal.ZERO;
        for (final Value e : tuple(v).elems) {
            m = m.max(maxAbs(e));
        }
        return m;
    }

    @TLAPlusOperator(identifier = "VMaxAbs", module = "HPReal", warn = false)
    public static Value vMaxAbs(final Value v) {
        return out(maxAbs(v));
    }

    @TLAPlusOperator(identifier = "MMaxAbs", module = "HPReal", warn = false)
    public static Value mMaxAbs(final Value m) {
        return out(maxAbs(m));
    }

    private static BigDecimal[][] matrix(final Value m) {
        final TupleValue a = tuple(m);
        final BigDecimal[][] r = new BigDecimal[a.size()][];
        for (int i = 0; i < r.length; i++) {
            final TupleValue row = tuple(a.elems[i]);
            r[i] = new BigDecimal[row.size()];
            for (int j = 0; j < r[i].length; j++) {
                r[i][j] = num(row.elems[j]);
            }
        }
        return r;
    }

    private static Value value(final BigDecimal[][] m) {
        final Value[] r = new Value[m.length];
        for (int i = 0; i < r.length; i++) {
            final Value[] row = new Value[m[i].length];
            for (int j = 0; j < row.length; j++) {
                row[j] = out(m[i][j]);
            }
            r[i] = seq(row);
        }
        return seq(r);
    }

    @TLAPlusOperator(identifier = "Cholesky", module = "HPReal", warn = false)
    public static Value cholesky(final Value m) {
        final BigDecimal[][] a = matrix(m);
        final int d = a.length;
        final BigDecimal[][] l = new BigDecimal[d][d];
        for (int j = 0; j < d; j++) {
            for (int i = 0; i < d; i++) {
                BigDecimal x = a[i][j];
                for (int k = 0; k < j && i >= j; k++) {
                    x = x.subtract(l[i][k].multiply(l[j][k], MC), MC);
                }
                if (i == j && x.signum() <= 0) {
                    return new TupleValue(new Value[0]);
                }
                if (i == j) {
                    l[j][j] = x.sqrt(MC);
                } else {
                    l[i][j] = BigDecimal.ZERO;
                }
            }
            for (int i = j + 1; i < d; i++) {
                BigDecimal x = a[i][j];
                for (int k = 0; k < j; k++) {
                    x = x.subtract(l[i][k].multiply(l[j][k], MC), MC);
                }
                l[i][j] = x.divide(l[j][j], MC);
            }
        }
        return value(l);
    }

    @TLAPlusOperator(identifier = "LowerInv", module = "HPReal", warn = false)
    public static Value lowerInv(final Value m) {
        final BigDecimal[][] l = matrix(m);
        final int d = l.length;
        final BigDecimal[][] c = new BigDecimal[d][d];
        for (int j = 0; j < d; j++) {
            for (int i = 0; i < d; i++) {
                BigDecimal x = i == j ? BigDecimal.ONE : BigDecimal.ZERO;
                for (int k = 0; k < i; k++) {
                    x = x.subtract(l[i][k].multiply(c[k][j], MC), MC);
                }
                c[i][j] = x.divide(l[i][i], MC);
            }
        }
        return value(c);
    }

    /** TRUE iff every string inside the (nested) value is a finite number. */
    @TLAPlusOperator(identifier = "RAllNum", module = "HPReal", warn = false)
    public static Value allNum(final Value v) {
        return deep(v) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static boolean deep(final Value v) {
        if (v instanceof StringValue) {
            try {
                new BigDecimal(((StringValue) v).val.toString());
                return true;
            } catch (NumberFormatException e) {
                return false;
            }
        }
        if (v instanceof IntValue) {
            return true;
        }
        if (v instanceof TupleValue) {
            for (final Value e : ((TupleValue) v).elems) {
                if (!deep(e)) {
                    return false;
                }
            }
            return true;
        }
        if (v instanceof RecordValue) {
            for (final Value e : ((RecordValue) v).values) {
                if (!deep(e)) {
                    return false;
                }
            }
            return true;
        }
        final Value t = v.toTuple();
        if (t != null) {
            return deep(t);
        }
        if (v instanceof FcnRcdValue) {
            for (final Value e : ((FcnRcdValue) v).values) {
                if (!deep(e)) {
                    return false;
                }
            }
            return true;
        }
        return false;
    }
}
