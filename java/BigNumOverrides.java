import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluates the operators of spec/BigNum.tla with java.math.BigInteger. */
public class BigNumOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] {BigNumOverrides.class}; }

    private static BigInteger n(Value v) { return new BigInteger(((StringValue) v).val.toString(), 16); }
    private static StringValue s(BigInteger b) { return new StringValue(b.toString(16)); }
    private static int i(Value v) { return ((IntValue) v).val; }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static BigInteger pos(Value v) {
        BigInteger x = n(v);
        if (x.signum() <= 0) throw new RuntimeException("BigNum: divisor must be positive: " + v);
        return x;
    }
    private static BigInteger nn(Value v) {
        BigInteger x = n(v);
        if (x.signum() < 0) throw new RuntimeException("BigNum: operand must not be negative: " + v);
        return x;
    }

    @TLAPlusOperator(identifier = "BInt", module = "BigNum", warn = false)
    public static Value bInt(Value a) { return s(BigInteger.valueOf(i(a))); }
    @TLAPlusOperator(identifier = "BToInt", module = "BigNum", warn = false)
    public static Value bToInt(Value a) { return IntValue.gen(n(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
    public static Value bAdd(Value a, Value c) { return s(n(a).add(n(c))); }
    @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
    public static Value bSub(Value a, Value c) { return s(n(a).subtract(n(c))); }
    @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
    public static Value bMul(Value a, Value c) { return s(n(a).multiply(n(c))); }
    @TLAPlusOperator(identifier = "BDiv", module = "BigNum", warn = false)
    public static Value bDiv(Value a, Value c) {
        BigInteger x = n(a), y = pos(c);
        BigInteger[] qr = x.divideAndRemainder(y);
        return s(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
    }
    @TLAPlusOperator(identifier = "BMod", module = "BigNum", warn = false)
    public static Value bMod(Value a, Value c) { return s(n(a).mod(pos(c))); }
    @TLAPlusOperator(identifier = "BAnd", module = "BigNum", warn = false)
    public static Value bAnd(Value a, Value c) { return s(nn(a).and(nn(c))); }
    @TLAPlusOperator(identifier = "BOr", module = "BigNum", warn = false)
    public static Value bOr(Value a, Value c) { return s(nn(a).or(nn(c))); }
    @TLAPlusOperator(identifier = "BXor", module = "BigNum", warn = false)
    public static Value bXor(Value a, Value c) { return s(nn(a).xor(nn(c))); }
    @TLAPlusOperator(identifier = "BShl", module = "BigNum", warn = false)
    public static Value bShl(Value a, Value k) { return s(n(a).shiftLeft(i(k))); }
    @TLAPlusOperator(identifier = "BShr", module = "BigNum", warn = false)
    public static Value bShr(Value a, Value k) { return s(n(a).shiftRight(i(k))); }
    @TLAPlusOperator(identifier = "BLt", module = "BigNum", warn = false)
    public static Value bLt(Value a, Value c) { return b(n(a).compareTo(n(c)) < 0); }
    @TLAPlusOperator(identifier = "BLe", module = "BigNum", warn = false)
    public static Value bLe(Value a, Value c) { return b(n(a).compareTo(n(c)) <= 0); }
    @TLAPlusOperator(identifier = "BBits", module = "BigNum", warn = false)
    public static Value bBits(Value a) { return IntValue.gen(nn(a).bitLength()); }
    @TLAPlusOperator(identifier = "BBit", module = "BigNum", warn = false)
    public static Value bBit(Value a, Value k) { return IntValue.gen(nn(a).testBit(i(k)) ? 1 : 0); }
    @TLAPlusOperator(identifier = "BPowMod", module = "BigNum", warn = false)
    public static Value bPowMod(Value a, Value e, Value m) { return s(n(a).modPow(nn(e), pos(m))); }
    @TLAPlusOperator(identifier = "BInvMod", module = "BigNum", warn = false)
    public static Value bInvMod(Value a, Value m) { return s(n(a).modInverse(pos(m))); }
    @TLAPlusOperator(identifier = "BParse", module = "BigNum", warn = false)
    public static Value bParse(Value a, Value r) { return s(new BigInteger(((StringValue) a).val.toString(), i(r))); }
    @TLAPlusOperator(identifier = "BFormat", module = "BigNum", warn = false)
    public static Value bFormat(Value a, Value r) { return new StringValue(n(a).toString(i(r))); }
    @TLAPlusOperator(identifier = "BBytesLE", module = "BigNum", warn = false)
    public static Value bBytesLE(Value a) {
        String t = ((StringValue) a).val.toString();
        StringBuilder r = new StringBuilder("0");
        for (int k = t.length() - 2; k >= 0; k -= 2) r.append(t, k, k + 2);
        return s(new BigInteger(r.toString(), 16));
    }
}
