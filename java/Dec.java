// TLC operator override for spec/Dec.tla: high precision decimal arithmetic on
// numbers written as strings.  TLC loads this class because it has the name of
// the module; every public static method with the name and arity of an operator
// of Dec.tla replaces that operator's (stub) definition.
import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public final class Dec {
  static final MathContext MC = new MathContext(45, RoundingMode.HALF_EVEN);
  static final int NAN = 1, PINF = 2, NINF = 3, FIN = 0;

  static final class Num {
    final int k; final BigDecimal v;
    Num(int k, BigDecimal v) { this.k = k; this.v = v; }
    static Num of(BigDecimal v) { return new Num(FIN, v.round(MC)); }
  }
  static final Num nNAN = new Num(NAN, null), nP = new Num(PINF, null), nN = new Num(NINF, null);
  static final ConcurrentHashMap<String, Num> cache = new ConcurrentHashMap<>();

  static Num parse(String s) {
    Num n = cache.get(s);
    if (n != null) return n;
    switch (s) {
      case "nan": n = nNAN; break;
      case "inf": n = nP; break;
      case "-inf": n = nN; break;
      default: n = Num.of(new BigDecimal(s));
    }
    if (cache.size() < 2000000) cache.put(s, n);
    return n;
  }
  static Num num(Value v) {
    if (v instanceof IntValue) return Num.of(BigDecimal.valueOf(((IntValue) v).val));
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("Dec: not a number: " + v);
  }
  static String text(Num n) {
    switch (n.k) {
      case NAN: return "nan";
      case PINF: return "inf";
      case NINF: return "-inf";
    }
    BigDecimal b = n.v;
    if (b.signum() == 0) return "0";
    String s = b.stripTrailingZeros().toString();
    if (cache.size() < 2000000) cache.putIfAbsent(s, n);
    return s;
  }
  static Value val(Num n) { return new StringValue(UniqueString.uniqueStringOf(text(n))); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---------------------------------------------------------------- scalars
  static int sign(Num a) {
    if (a.k == PINF) return 1;
    if (a.k == NINF) return -1;
    return a.v.signum();
  }
  static Num add(Num a, Num b) {
    if (a.k == NAN || b.k == NAN) return nNAN;
    if (a.k != FIN || b.k != FIN) {
      if (a.k == FIN) return b;
      if (b.k == FIN) return a;
      return a.k == b.k ? a : nNAN;
    }
    return Num.of(a.v.add(b.v, MC));
  }
  static Num neg(Num a) {
    if (a.k == NAN) return a;
    if (a.k == PINF) return nN;
    if (a.k == NINF) return nP;
    return new Num(FIN, a.v.negate());
  }
  static Num sub(Num a, Num b) { return add(a, neg(b)); }
  static Num mul(Num a, Num b) {
    if (a.k == NAN || b.k == NAN) return nNAN;
    if (a.k != FIN || b.k != FIN) {
      int s = sign(a) * sign(b);
      return s == 0 ? nNAN : s > 0 ? nP : nN;
    }
    return Num.of(a.v.multiply(b.v, MC));
  }
  static Num div(Num a, Num b) {
    if (a.k == NAN || b.k == NAN) return nNAN;
    if (a.k != FIN && b.k != FIN) return nNAN;
    if (b.k != FIN) return Num.of(BigDecimal.ZERO);
    if (b.v.signum() == 0) {
      int s = sign(a);
      return s == 0 ? nNAN : s > 0 ? nP : nN;
    }
    if (a.k != FIN) return b.v.signum() > 0 ? a : neg(a);
    return Num.of(a.v.divide(b.v, MC));
  }
  static Num sqrt(Num a) {
    if (a.k == NAN || a.k == NINF) return nNAN;
    if (a.k == PINF) return a;
    if (a.v.signum() < 0) return nNAN;
    if (a.v.signum() == 0) return a;
    return Num.of(a.v.sqrt(MC));
  }
  // comparison of non-NaN numbers
  static int cmp(Num a, Num b) {
    if (a.k == b.k && a.k != FIN) return 0;
    if (a.k == PINF || b.k == NINF) return 1;
    if (a.k == NINF || b.k == PINF) return -1;
    return a.v.compareTo(b.v);
  }
  static final MathContext MX = new MathContext(60, RoundingMode.HALF_EVEN);
  static BigDecimal expFin(BigDecimal x) {
    // exp(x) = exp(x / 2^k)^(2^k)
    if (x.signum() == 0) return BigDecimal.ONE;
    int k = 0;
    BigDecimal y = x;
    BigDecimal lim = new BigDecimal("0.01");
    BigDecimal two = BigDecimal.valueOf(2);
    while (y.abs().compareTo(lim) > 0) { y = y.divide(two, MX); k++; }
    BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      term = term.multiply(y, MX).divide(BigDecimal.valueOf(i), MX);
      sum = sum.add(term, MX);
      if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-62")) < 0) break;
    }
    for (int i = 0; i < k; i++) sum = sum.multiply(sum, MX);
    return sum;
  }
  static Num exp(Num a) {
    if (a.k == NAN || a.k == PINF) return a;
    if (a.k == NINF) return Num.of(BigDecimal.ZERO);
    if (a.v.compareTo(BigDecimal.valueOf(5000)) > 0) return nP;
    if (a.v.compareTo(BigDecimal.valueOf(-5000)) < 0) return Num.of(BigDecimal.ZERO);
    return Num.of(expFin(a.v));
  }
  static Num log(Num a) {
    if (a.k == NAN || a.k == NINF) return nNAN;
    if (a.k == PINF) return a;
    if (a.v.signum() < 0) return nNAN;
    if (a.v.signum() == 0) return nN;
    // exponent-normalise, then Newton on exp
    int e = a.v.precision() - a.v.scale();
    BigDecimal m = a.v.movePointLeft(e);                 // in [0.1, 1)
    BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
    for (int i = 0; i < 3; i++) {
      BigDecimal ey = expFin(y);
      // halley-free Newton: y += 2 (m - e^y) / (m + e^y)
      y = y.add(BigDecimal.valueOf(2).multiply(m.subtract(ey, MX)).divide(m.add(ey, MX), MX), MX);
    }
    if (LN10 == null) {
      BigDecimal z = new BigDecimal(Math.log(10.0));
      BigDecimal ten = BigDecimal.TEN;
      for (int i = 0; i < 3; i++) {
        BigDecimal ez = expFin(z);
        z = z.add(BigDecimal.valueOf(2).multiply(ten.subtract(ez, MX)).divide(ten.add(ez, MX), MX), MX);
      }
      LN10 = z;
    }
    return Num.of(y.add(LN10.multiply(BigDecimal.valueOf(e), MX), MX));
  }
  static volatile BigDecimal LN10 = null;

  public static Value DAdd(Value a, Value b) { return val(add(num(a), num(b))); }
  public static Value DSub(Value a, Value b) { return val(sub(num(a), num(b))); }
  public static Value DMul(Value a, Value b) { return val(mul(num(a), num(b))); }
  public static Value DDiv(Value a, Value b) { return val(div(num(a), num(b))); }
  public static Value DNeg(Value a) { return val(neg(num(a))); }
  public static Value DAbs(Value a) { Num x = num(a); return x.k == NAN ? val(x) : val(sign(x) < 0 ? neg(x) : x); }
  public static Value DSqrt(Value a) { return val(sqrt(num(a))); }
  public static Value DExp(Value a) { return val(exp(num(a))); }
  public static Value DLog(Value a) { return val(log(num(a))); }
  public static Value DLt(Value a, Value b) {
    Num x = num(a), y = num(b);
    return bool(x.k != NAN && y.k != NAN && cmp(x, y) < 0);
  }
  public static Value DLe(Value a, Value b) {
    Num x = num(a), y = num(b);
    return bool(x.k != NAN && y.k != NAN && cmp(x, y) <= 0);
  }
  public static Value DEq(Value a, Value b) {
    Num x = num(a), y = num(b);
    return bool(x.k != NAN && y.k != NAN && cmp(x, y) == 0);
  }
  public static Value DIsNan(Value a) { return bool(num(a).k == NAN); }
  public static Value DIsFin(Value a) { return bool(num(a).k == FIN); }
  public static Value DNorm(Value a) { return val(num(a)); }

  // ---------------------------------------------------------------- vectors
  static Num[] vec(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Dec: not a vector: " + v);
    Num[] r = new Num[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = num(t.elems[i]);
    return r;
  }
  static Value vec(Num[] r) {
    Value[] e = new Value[r.length];
    for (int i = 0; i < r.length; i++) e[i] = val(r[i]);
    return new TupleValue(e);
  }
  static void same(Num[] a, Num[] b) {
    if (a.length != b.length) throw new RuntimeException("Dec: vector lengths " + a.length + " and " + b.length);
  }
  static Num dot(Num[] a, Num[] b) {
    same(a, b);
    Num s = Num.of(BigDecimal.ZERO);
    for (int i = 0; i < a.length; i++) s = add(s, mul(a[i], b[i]));
    return s;
  }
  public static Value VSum(Value x) {
    Num s = Num.of(BigDecimal.ZERO);
    for (Num n : vec(x)) s = add(s, n);
    return val(s);
  }
  public static Value VDot(Value x, Value y) { return val(dot(vec(x), vec(y))); }
  public static Value VAdd(Value x, Value y) {
    Num[] a = vec(x), b = vec(y), r = new Num[a.length];
    same(a, b);
    for (int i = 0; i < r.length; i++) r[i] = add(a[i], b[i]);
    return vec(r);
  }
  public static Value VSub(Value x, Value y) {
    Num[] a = vec(x), b = vec(y), r = new Num[a.length];
    same(a, b);
    for (int i = 0; i < r.length; i++) r[i] = sub(a[i], b[i]);
    return vec(r);
  }
  public static Value VScale(Value c, Value x) {
    Num k = num(c);
    Num[] a = vec(x), r = new Num[a.length];
    for (int i = 0; i < r.length; i++) r[i] = mul(k, a[i]);
    return vec(r);
  }
  public static Value VAxpy(Value c, Value x, Value y) {   // c x + y
    Num k = num(c);
    Num[] a = vec(x), b = vec(y), r = new Num[a.length];
    same(a, b);
    for (int i = 0; i < r.length; i++) r[i] = add(mul(k, a[i]), b[i]);
    return vec(r);
  }
  public static Value VMaxAbs(Value x) {
    Num m = Num.of(BigDecimal.ZERO);
    for (Num n : vec(x)) {
      if (n.k == NAN) return val(nNAN);
      Num p = sign(n) < 0 ? neg(n) : n;
      if (cmp(p, m) > 0) m = p;
    }
    return val(m);
  }
  public static Value MVec(Value A, Value x) {
    TupleValue rows = (TupleValue) A.toTuple();
    Num[] b = vec(x), r = new Num[rows.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(vec(rows.elems[i]), b);
    return vec(r);
  }
  public static Value MTVec(Value A, Value x) {            // A^T x
    TupleValue rows = (TupleValue) A.toTuple();
    Num[] b = vec(x);
    int n = rows.elems.length == 0 ? 0 : vec(rows.elems[0]).length;
    Num[] r = new Num[n];
    for (int j = 0; j < n; j++) r[j] = Num.of(BigDecimal.ZERO);
    for (int i = 0; i < rows.elems.length; i++) {
      Num[] row = vec(rows.elems[i]);
      for (int j = 0; j < n; j++) r[j] = add(r[j], mul(row[j], b[i]));
    }
    return vec(r);
  }
  // Gaussian elimination with row pivoting; <<>> when A is (numerically) singular
  public static Value MSolve(Value A, Value bb) {
    TupleValue rows = (TupleValue) A.toTuple();
    int n = rows.elems.length;
    Num[] b = vec(bb);
    if (b.length != n) throw new RuntimeException("Dec: MSolve sizes");
    BigDecimal[][] M = new BigDecimal[n][n + 1];
    BigDecimal big = BigDecimal.ZERO;
    for (int i = 0; i < n; i++) {
      Num[] r = vec(rows.elems[i]);
      if (r.length != n) throw new RuntimeException("Dec: MSolve needs a square matrix");
      for (int j = 0; j < n; j++) {
        if (r[j].k != FIN) return new TupleValue(new Value[0]);
        M[i][j] = r[j].v;
        big = big.max(r[j].v.abs());
      }
      if (b[i].k != FIN) return new TupleValue(new Value[0]);
      M[i][n] = b[i].v;
    }
    BigDecimal tiny = big.movePointLeft(25);
    for (int c = 0; c < n; c++) {
      int p = c;
      for (int i = c + 1; i < n; i++) if (M[i][c].abs().compareTo(M[p][c].abs()) > 0) p = i;
      if (M[p][c].abs().compareTo(tiny) <= 0) return new TupleValue(new Value[0]);
      BigDecimal[] t = M[p]; M[p] = M[c]; M[c] = t;
      for (int i = c + 1; i < n; i++) {
        if (M[i][c].signum() == 0) continue;
        BigDecimal f = M[i][c].divide(M[c][c], MX);
        for (int j = c; j <= n; j++) M[i][j] = M[i][j].subtract(f.multiply(M[c][j], MX), MX);
      }
    }
    Num[] x = new Num[n];
    BigDecimal[] y = new BigDecimal[n];
    for (int i = n - 1; i >= 0; i--) {
      BigDecimal s = M[i][n];
      for (int j = i + 1; j < n; j++) s = s.subtract(M[i][j].multiply(y[j], MX), MX);
      y[i] = s.divide(M[i][i], MX);
      x[i] = Num.of(y[i]);
    }
    return vec(x);
  }
}
