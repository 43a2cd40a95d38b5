// TLC module override for RealNum.tla: real numbers with 50 significant
// digits.  Every IEEE-754 double (53 bits) and every product of two doubles
// (106 bits, 32 digits) is represented without rounding, so the sign of the
// quadratic forms evaluated by the specification is decided far below the
// resolution of the implementation's arithmetic.
//
// Values are also produced by the trace loader: a JSON string of the form
// "0x1.8p+3", "-0x...", "inf", "-inf" or "nan" (the way the harness prints a
// double, without loss) becomes a real.

import java.io.BufferedReader;
import java.io.FileReader;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.UserObj;
import tlc2.value.impl.UserValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class RealNum {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);

  // ---- the value ---------------------------------------------------------
  static final class Obj extends UserObj {
    final BigDecimal v; // null for inf / nan
    final int special;  // 0 finite, 1 +inf, -1 -inf, 2 nan

    Obj(BigDecimal v) { this.v = v; this.special = 0; }
    Obj(int special) { this.v = null; this.special = special; }

    @Override public int compareTo(Value o) { return cmp(this, obj(o)); }
    @Override public boolean member(Value o) { return false; }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean sw) {
      if (special == 0) { return sb.append("\"r:").append(v.round(new MathContext(17)).toString()).append('"'); }
      return sb.append(special == 2 ? "\"nan\"" : special == 1 ? "\"inf\"" : "\"-inf\"");
    }
  }

  static final class RealValue extends UserValue {
    RealValue(Obj o) { super(o); }
    @Override public long fingerPrint(long fp) {
      Obj o = (Obj) userObj;
      String s = o.special == 0 ? o.v.stripTrailingZeros().toString() : "s" + o.special;
      return tlc2.util.FP64.Extend(fp, s);
    }
    @Override public void write(IValueOutputStream vos) throws IOException {
      throw new IOException("RealNum values must not be spilled to disk");
    }
  }

  static int cmp(Obj a, Obj b) {
    if (a.special == 0 && b.special == 0) { return a.v.compareTo(b.v); }
    return Double.compare(dbl(a), dbl(b));
  }

  static double dbl(Obj o) {
    switch (o.special) {
      case 0: return o.v.doubleValue();
      case 1: return Double.POSITIVE_INFINITY;
      case -1: return Double.NEGATIVE_INFINITY;
      default: return Double.NaN;
    }
  }

  static Obj obj(Object x) {
    if (x instanceof RealValue) { return (Obj) ((RealValue) x).userObj; }
    if (x instanceof IntValue) { return new Obj(BigDecimal.valueOf(((IntValue) x).val)); }
    if (x instanceof StringValue) { return parse(((StringValue) x).val.toString()); }
    throw new RuntimeException("RealNum: not a number: " + x);
  }

  static Obj fromDouble(double d) {
    if (Double.isNaN(d)) { return new Obj(2); }
    if (Double.isInfinite(d)) { return new Obj(d > 0 ? 1 : -1); }
    return new Obj(new BigDecimal(d));
  }

  static Obj parse(String s) {
    switch (s) {
      case "inf": return new Obj(1);
      case "-inf": return new Obj(-1);
      case "nan": case "-nan": return new Obj(2);
      default:
        if (s.startsWith("0x") || s.startsWith("-0x")) { return fromDouble(Double.parseDouble(s)); }
        return new Obj(new BigDecimal(s));
    }
  }

  static Value mk(BigDecimal b) { return new RealValue(new Obj(b)); }
  static Value mk(Obj o) { return new RealValue(o); }
  static Value nan() { return new RealValue(new Obj(2)); }
  static Value viaDouble(double d) { return new RealValue(fromDouble(d)); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---- operators ---------------------------------------------------------
  public static Value R(Value a) { return mk(obj(a)); }
  public static Value RAdd(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return x.special == 0 && y.special == 0 ? mk(y.v.signum() == 0 ? x.v : x.v.signum() == 0 ? y.v : x.v.add(y.v, MC)) : viaDouble(dbl(x) + dbl(y));
  }
  public static Value RSub(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return x.special == 0 && y.special == 0 ? mk(y.v.signum() == 0 ? x.v : x.v.subtract(y.v, MC)) : viaDouble(dbl(x) - dbl(y));
  }
  public static Value RMul(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return x.special == 0 && y.special == 0 ? mk(x.v.multiply(y.v, MC)) : viaDouble(dbl(x) * dbl(y));
  }
  public static Value RDiv(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    if (x.special == 0 && y.special == 0) {
      if (y.v.signum() == 0) { return x.v.signum() == 0 ? nan() : mk(new Obj(x.v.signum())); }
      return mk(x.v.divide(y.v, MC));
    }
    return viaDouble(dbl(x) / dbl(y));
  }
  public static Value RLt(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return bool(x.special != 2 && y.special != 2 && cmp(x, y) < 0);
  }
  public static Value RLe(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return bool(x.special != 2 && y.special != 2 && cmp(x, y) <= 0);
  }
  public static Value REq(Value a, Value b) {
    Obj x = obj(a), y = obj(b);
    return bool(x.special != 2 && y.special != 2 && cmp(x, y) == 0);
  }
  public static Value RIsFinite(Value a) { return bool(obj(a).special == 0); }
  public static Value RIsNaN(Value a) { return bool(obj(a).special == 2); }
  public static Value RSqrt(Value a) {
    Obj x = obj(a);
    if (x.special != 0) { return viaDouble(Math.sqrt(dbl(x))); }
    if (x.v.signum() <= 0) { return x.v.signum() < 0 ? nan() : mk(BigDecimal.ZERO); }
    final double d = x.v.doubleValue();
    if (!(d > 1e-280 && d < 1e280)) { return mk(x.v.sqrt(MC)); }
    // two steps of Newton's method from 53 bits
    BigDecimal r = new BigDecimal(Math.sqrt(d));
    for (int i = 0; i < 2; i++) { r = r.add(x.v.divide(r, WC), WC).divide(TWO, WC); }
    return mk(r.round(MC));
  }
  // exponential and error function with 50 digits
  static final MathContext WC = new MathContext(64, RoundingMode.HALF_EVEN);
  static final BigDecimal LN2 = new BigDecimal("0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");
  static final BigDecimal TWO_OVER_SQRT_PI = new BigDecimal("1.12837916709551257389615890312154517168810125865799771368817144342128493688298682897348732");
  static final BigDecimal TWO = BigDecimal.valueOf(2);
  // fixed point numbers with FB fractional bits
  static final int FB = 256;
  static final BigDecimal SCALE = new BigDecimal(BigInteger.ONE.shiftLeft(FB));
  static BigInteger fixed(BigDecimal x) { return x.multiply(SCALE).toBigInteger(); }
  static BigDecimal unfixed(BigInteger x, int k) { return new BigDecimal(x).round(WC).multiply(TWO.pow(k - FB, WC), WC); }
  static BigDecimal exp(BigDecimal x) {
    final int k = x.divide(LN2, WC).setScale(0, RoundingMode.HALF_EVEN).intValueExact();
    final BigInteger r = fixed(x.subtract(LN2.multiply(BigDecimal.valueOf(k)))).shiftRight(8);
    final BigInteger one = BigInteger.ONE.shiftLeft(FB);
    BigInteger sum = one, term = one;
    for (int n = 1; n < 60 && term.bitLength() > 4; n++) {
      term = term.multiply(r).shiftRight(FB).divide(BigInteger.valueOf(n));
      sum = sum.add(term);
    }
    for (int i = 0; i < 8; i++) { sum = sum.multiply(sum).shiftRight(FB); }
    return unfixed(sum, k);
  }
  public static Value RExp(Value a) {
    Obj x = obj(a);
    if (x.special != 0 || Math.abs(dbl(x)) > 1e6) { return viaDouble(Math.exp(dbl(x))); }
    return mk(exp(x.v.round(WC)).round(MC));
  }
  public static Value RLn(Value a) { return viaDouble(Math.log(dbl(obj(a)))); }
  public static Value RCos(Value a) { return viaDouble(Math.cos(dbl(obj(a)))); }
  public static Value RSin(Value a) { return viaDouble(Math.sin(dbl(obj(a)))); }
  public static Value RPow(Value a, Value b) { return viaDouble(Math.pow(dbl(obj(a)), dbl(obj(b)))); }
  public static Value RFloor(Value a) {
    Obj x = obj(a);
    return IntValue.gen(x.v.setScale(0, RoundingMode.FLOOR).intValueExact());
  }
  public static Value RErf(Value a) {
    Obj o = obj(a);
    if (o.special == 2) { return nan(); }
    if (Math.abs(dbl(o)) > 11) { return mk(BigDecimal.valueOf(dbl(o) > 0 ? 1 : -1)); }
    if (o.v.signum() == 0) { return mk(BigDecimal.ZERO); }
    if (Math.abs(dbl(o)) < 1e-20) { return mk(TWO_OVER_SQRT_PI.multiply(o.v, MC)); }
    // 2 / sqrt(pi) exp(-x^2) sum 2^n x^(2n+1) / (2n+1)!!  (no cancellation)
    final BigDecimal x = o.v.round(WC), xx = x.multiply(x, WC);
    final BigInteger t = fixed(xx.multiply(TWO));
    BigInteger sum = fixed(x), term = sum;
    for (int n = 1; n < 4000 && term.bitLength() > 4; n++) {
      term = term.multiply(t).shiftRight(FB).divide(BigInteger.valueOf(2 * n + 1));
      sum = sum.add(term);
    }
    return mk(TWO_OVER_SQRT_PI.multiply(exp(xx.negate()), WC).multiply(unfixed(sum, 0), WC).round(MC));
  }

  static Value[] elems(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) { throw new RuntimeException("RealNum: not a sequence: " + s); }
    return t.elems;
  }
  public static Value RSum(Value s) {
    Value acc = mk(BigDecimal.ZERO);
    for (Value e : elems(s)) { acc = RAdd(acc, e); }
    return acc;
  }
  public static Value RSort(Value s) {
    Value[] e = elems(s).clone();
    Arrays.sort(e, (p, q) -> cmp(obj(p), obj(q)));
    return new TupleValue(e);
  }
  // the sequence of values f[1..n] given n copies of the double nearest to v
  public static Value RNearestDouble(Value a) { return viaDouble(dbl(obj(a))); }

  // ---- trace loading -----------------------------------------------------
  private static final Map<String, Value> CACHE = new HashMap<>();

  public static synchronized Value LoadTrace(Value path) throws IOException {
    String p = ((StringValue) path).val.toString();
    Value c = CACHE.get(p);
    if (c != null) { return c; }
    ArrayList<Value> lines = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new FileReader(p), 1 << 20)) {
      String line;
      while ((line = br.readLine()) != null) {
        if (!line.isEmpty()) {
          P ps = new P(line);
          lines.add(ps.value());
        }
      }
    }
    c = new TupleValue(lines.toArray(new Value[0]));
    c.deepNormalize();
    CACHE.put(p, c);
    return c;
  }

  private static final class P {
    final String s;
    int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') { i++; } }
    RuntimeException err(String m) { return new RuntimeException("JSON: " + m + " at " + i + " in " + s); }
    Value value() {
      ws();
      char ch = s.charAt(i);
      if (ch == '{') { return object(); }
      if (ch == '[') {
        i++;
        ArrayList<Value> a = new ArrayList<>();
        ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) {
          a.add(value());
          ws();
          char d = s.charAt(i++);
          if (d == ']') { break; }
          if (d != ',') { throw err("expected ,"); }
        }
        return new TupleValue(a.toArray(new Value[0]));
      }
      if (ch == '"') {
        String t = string();
        if (t.startsWith("0x") || t.startsWith("-0x") || t.equals("inf") || t.equals("-inf") || t.equals("nan") || t.equals("-nan")) {
          return mk(parse(t));
        }
        return new StringValue(t);
      }
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      int b = i;
      while (i < s.length() && "+-0123456789.eE".indexOf(s.charAt(i)) >= 0) { i++; }
      String n = s.substring(b, i);
      try {
        return IntValue.gen(Integer.parseInt(n));
      } catch (NumberFormatException e) {
        throw err("number does not fit (write reals and wide integers as strings): " + n);
      }
    }
    Value object() {
      i++;
      ArrayList<UniqueString> ks = new ArrayList<>();
      ArrayList<Value> vs = new ArrayList<>();
      ws();
      if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
      while (true) {
        ws();
        ks.add(UniqueString.uniqueStringOf(string()));
        ws();
        if (s.charAt(i++) != ':') { throw err("expected :"); }
        vs.add(value());
        ws();
        char d = s.charAt(i++);
        if (d == '}') { break; }
        if (d != ',') { throw err("expected ,"); }
      }
      return new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
    }
    String string() {
      if (s.charAt(i) != '"') { throw err("expected string"); }
      StringBuilder sb = new StringBuilder();
      i++;
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') { return sb.toString(); }
        if (c == '\\') {
          char d = s.charAt(i++);
          switch (d) {
            case 'n': sb.append('\n'); break;
            case 't': sb.append('\t'); break;
            case 'r': sb.append('\r'); break;
            case 'b': sb.append('\b'); break;
            case 'f': sb.append('\f'); break;
            case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: sb.append(d);
          }
        } else { sb.append(c); }
      }
    }
  }
}
