package tlc2.module;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Java evaluation of the operators declared in spec/Num.tla: exact rational arithmetic (with NaN and
 * signed infinities as absorbing non-finite values), exact linear algebra over the rationals, and a
 * few special functions evaluated to about 1e-13.  The operators are pure; nothing here knows about
 * estimators.
 */
public class Num {
  /** immutable extended rational */
  public static final class Q extends UserObj {
    static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
    final int k; final BigInteger n, d;
    Q(int kind) { k = kind; n = BigInteger.ZERO; d = BigInteger.ONE; }
    Q(BigInteger nn, BigInteger dd, boolean norm) {
      k = FIN;
      if (norm) {
        if (dd.signum() < 0) { nn = nn.negate(); dd = dd.negate(); }
        if (nn.signum() == 0) { dd = BigInteger.ONE; }
        else if (!dd.equals(BigInteger.ONE)) {
          BigInteger g = nn.gcd(dd);
          if (!g.equals(BigInteger.ONE)) { nn = nn.divide(g); dd = dd.divide(g); }
        }
      }
      n = nn; d = dd;
    }
    boolean fin() { return k == FIN; }
    @Override public int compareTo(Value v) {
      if (!(v instanceof UserValue) || !(((UserValue) v).userObj instanceof Q))
        throw new RuntimeException("comparing a Num with " + v);
      return cmpTotal(this, (Q) ((UserValue) v).userObj);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("a Num is not a set"); }
    @Override public boolean isFinite() { return true; }
    @Override public StringBuffer toString(StringBuffer sb, int i, boolean b) { return sb.append(show(this)); }
  }

  static final Q NAN = new Q(Q.NAN), PINF = new Q(Q.PINF), NINF = new Q(Q.NINF);
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE, false);
  static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE, false);
  static final MathContext MC = new MathContext(70);

  static String show(Q q) {
    switch (q.k) {
      case Q.NAN: return "NaN"; case Q.PINF: return "Inf"; case Q.NINF: return "-Inf";
      default: return q.d.equals(BigInteger.ONE) && q.n.bitLength() < 60 ? q.n.toString() : Double.toString(dbl(q));
    }
  }
  static int cmpTotal(Q a, Q b) {
    if (a.k == Q.FIN && b.k == Q.FIN) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    if (a.k == b.k) return 0;
    return Integer.compare(rank(a), rank(b));
  }
  static int rank(Q a) { switch (a.k) { case Q.NINF: return 0; case Q.FIN: return 1; case Q.PINF: return 2; default: return 3; } }

  static Value v(Q q) { return new UserValue(q); }
  static Q q(Object o) {
    if (o instanceof UserValue && ((UserValue) o).userObj instanceof Q) return (Q) ((UserValue) o).userObj;
    if (o instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) o).val), BigInteger.ONE, false);
    if (o instanceof StringValue) { try { return parse(((StringValue) o).val.toString()); } catch (NumberFormatException e) { return NAN; } }
    throw new RuntimeException("not a Num: " + o);
  }
  static Q parse(String s) {
    s = s.trim();
    if (s.startsWith("#")) s = s.substring(1);
    String l = s.toLowerCase();
    if (l.equals("nan")) return NAN;
    if (l.equals("inf") || l.equals("+inf")) return PINF;
    if (l.equals("-inf")) return NINF;
    int i = s.indexOf('/');
    if (i > 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)), true);
    if (l.contains("0x")) return of(Double.parseDouble(s));
    return ofBD(new BigDecimal(s));
  }
  static Q ofBD(BigDecimal b) {
    if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE, false);
    return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()), true);
  }
  static Q of(double x) {
    if (Double.isNaN(x)) return NAN;
    if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
    if (x == 0) return ZERO;
    long bits = Double.doubleToLongBits(x);
    int e = (int) ((bits >> 52) & 0x7ff);
    long m = bits & 0xfffffffffffffL;
    if (e == 0) e++; else m |= 1L << 52;
    e -= 1075;
    int tz = Long.numberOfTrailingZeros(m); m >>>= tz; e += tz;
    BigInteger n = BigInteger.valueOf(bits < 0 ? -m : m);
    return e >= 0 ? new Q(n.shiftLeft(e), BigInteger.ONE, false) : new Q(n, BigInteger.ONE.shiftLeft(-e), false);
  }
  static double dbl(Q q) {
    switch (q.k) { case Q.NAN: return Double.NaN; case Q.PINF: return Double.POSITIVE_INFINITY; case Q.NINF: return Double.NEGATIVE_INFINITY; }
    if (q.n.signum() == 0) return 0;
    // quotient with at least 80 significant bits, then one conversion
    int sh = 80 - (q.n.bitLength() - q.d.bitLength());
    BigInteger t = sh > 0 ? q.n.shiftLeft(sh).divide(q.d) : q.n.divide(q.d.shiftLeft(-sh));
    if (sh > -900 && sh < 900) return Math.scalb(t.doubleValue(), -sh);
    return bd(q, new MathContext(25)).doubleValue();
  }
  static BigDecimal bd(Q q, MathContext mc) { return new BigDecimal(q.n).divide(new BigDecimal(q.d), mc); }
  static Q add(Q a, Q b) {
    if (a.fin() && b.fin()) {
      if (a.d.equals(b.d)) return a.d.equals(BigInteger.ONE) ? new Q(a.n.add(b.n), BigInteger.ONE, false) : new Q(a.n.add(b.n), a.d, true);
      return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d), true);
    }
    if (a.k == Q.NAN || b.k == Q.NAN) return NAN;
    if (a.fin()) return b; if (b.fin()) return a;
    return a.k == b.k ? a : NAN;
  }
  static Q neg(Q a) { return a.fin() ? new Q(a.n.negate(), a.d, false) : a.k == Q.PINF ? NINF : a.k == Q.NINF ? PINF : NAN; }
  static Q sub(Q a, Q b) { return add(a, neg(b)); }
  static Q mul(Q a, Q b) {
    if (a.fin() && b.fin()) return new Q(a.n.multiply(b.n), a.d.multiply(b.d), true);
    if (a.k == Q.NAN || b.k == Q.NAN) return NAN;
    int s = sgn(a) * sgn(b);
    return s == 0 ? NAN : s > 0 ? PINF : NINF;
  }
  static int sgn(Q a) { return a.k == Q.PINF ? 1 : a.k == Q.NINF ? -1 : a.n.signum(); }
  static Q div(Q a, Q b) {
    if (a.fin() && b.fin()) {
      if (b.n.signum() == 0) return NAN;
      return new Q(a.n.multiply(b.d), a.d.multiply(b.n), true);
    }
    if (a.fin() && (b.k == Q.PINF || b.k == Q.NINF)) return ZERO;
    return NAN;
  }
  static Q abs(Q a) { return a.fin() ? new Q(a.n.abs(), a.d, false) : a.k == Q.NAN ? NAN : PINF; }
  static boolean le(Q a, Q b) { return a.k != Q.NAN && b.k != Q.NAN && cmpTotal(a, b) <= 0; }
  static boolean lt(Q a, Q b) { return a.k != Q.NAN && b.k != Q.NAN && cmpTotal(a, b) < 0; }

  // ---- operators -------------------------------------------------------------------------
  public static Value Nm(Value a) { return v(q(a)); }
  public static Value Rt(Value a, Value b) { return v(div(q(a), q(b))); }
  public static Value Add(Value a, Value b) { return v(add(q(a), q(b))); }
  public static Value Sub(Value a, Value b) { return v(sub(q(a), q(b))); }
  public static Value Mul(Value a, Value b) { return v(mul(q(a), q(b))); }
  public static Value Div(Value a, Value b) { return v(div(q(a), q(b))); }
  public static Value NegN(Value a) { return v(neg(q(a))); }
  public static Value Abs(Value a) { return v(abs(q(a))); }
  public static Value Lt(Value a, Value b) { return lt(q(a), q(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Le(Value a, Value b) { return le(q(a), q(b)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NumEq(Value a, Value b) { Q x = q(a), y = q(b); return x.k != Q.NAN && y.k != Q.NAN && cmpTotal(x, y) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsFin(Value a) { return q(a).fin() ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsNaN(Value a) { return q(a).k == Q.NAN ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value IsNum(Value a) { return a instanceof UserValue || a instanceof IntValue ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value ToInt(Value a) { Q x = q(a); if (!x.fin() || !x.d.equals(BigInteger.ONE)) throw new RuntimeException("ToInt of " + show(x)); return IntValue.gen(x.n.intValueExact()); }
  public static Value IsInteger(Value a) { Q x = q(a); return x.fin() && x.d.equals(BigInteger.ONE) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value FloorN(Value a) { Q x = q(a); if (!x.fin()) return v(x); BigInteger[] r = x.n.divideAndRemainder(x.d); return v(new Q(x.n.signum() < 0 && r[1].signum() != 0 ? r[0].subtract(BigInteger.ONE) : r[0], BigInteger.ONE, false)); }
  public static Value CeilN(Value a) { return NegN(FloorN(NegN(a))); }
  public static Value ShowN(Value a) { return new StringValue(show(q(a))); }
  public static Value Rnd(Value a) { Q x = q(a); return v(rnd(x)); }
  static Q rnd(Q x) { if (!x.fin() || (x.n.bitLength() < 300 && x.d.bitLength() < 300) || x.n.signum() == 0) return x; return ofBD(bd(x, MC)); }
  static Q sqrt(Q x) {
    if (x.k == Q.PINF) return PINF; if (!x.fin() || x.n.signum() < 0) return NAN;
    if (x.n.signum() == 0) return ZERO;
    return ofBD(bd(x, new MathContext(100)).sqrt(MC));
  }
  public static Value Sqrt(Value a) { return v(sqrt(q(a))); }
  /** |a-b| <= rtol*max(|a|,|b|) + atol; equal infinities are close, NaN never is */
  public static Value Close(Value a, Value b, Value rtol, Value atol) {
    Q x = q(a), y = q(b);
    if (!x.fin() || !y.fin()) return x.k == y.k && x.k != Q.NAN ? BoolValue.ValTrue : BoolValue.ValFalse;
    // decided in floating point when the comparison is not within a factor of two (and the scale is ordinary)
    double dx = dbl(x), dy = dbl(y), mm = Math.max(Math.abs(dx), Math.abs(dy));
    double tol = dbl(q(rtol)) * mm + dbl(q(atol)), df = Math.abs(dx - dy);
    if (mm < 1e200 && tol > 1e-12 * mm && tol > 1e-200) { if (df < 0.5 * tol) return BoolValue.ValTrue; if (df > 2 * tol) return BoolValue.ValFalse; }
    Q m = lt(abs(x), abs(y)) ? abs(y) : abs(x);
    return le(abs(sub(x, y)), add(mul(q(rtol), m), q(atol))) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // ---- sequences -------------------------------------------------------------------------
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) {
      throw new RuntimeException("not a sequence: " + s);
    }
    return ((TupleValue) t).elems;
  }
  static Q[] vec(Value s) { Value[] e = seq(s); Q[] r = new Q[e.length]; for (int i = 0; i < r.length; i++) r[i] = q(e[i]); return r; }
  static Q[][] mat(Value s) { Value[] e = seq(s); Q[][] r = new Q[e.length][]; for (int i = 0; i < r.length; i++) r[i] = vec(e[i]); return r; }
  static Value tup(Q[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = v(a[i]); return new TupleValue(e); }
  static Value tup(Q[][] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = tup(a[i]); return new TupleValue(e); }
  static Q sum(Q[] x) {
    // common-denominator accumulation
    BigInteger n = BigInteger.ZERO, d = BigInteger.ONE; boolean nf = false;
    for (Q a : x) if (!a.fin()) nf = true;
    if (nf) { Q s = ZERO; for (Q a : x) s = add(s, a); return s; }
    for (Q a : x) {
      if (a.d.equals(d)) n = n.add(a.n);
      else { BigInteger g = d.gcd(a.d); BigInteger l = d.divide(g).multiply(a.d); n = n.multiply(l.divide(d)).add(a.n.multiply(l.divide(a.d))); d = l; }
    }
    return new Q(n, d, true);
  }
  static Q dot(Q[] a, Q[] b) { if (a.length != b.length) throw new RuntimeException("dot: lengths " + a.length + " " + b.length); Q[] p = new Q[a.length]; for (int i = 0; i < p.length; i++) p[i] = mul(a[i], b[i]); return sum(p); }
  public static Value SumQ(Value s) { return v(sum(vec(s))); }
  public static Value MeanQ(Value s) { Q[] x = vec(s); return v(div(sum(x), q(IntValue.gen(x.length)))); }
  public static Value Dot(Value a, Value b) { return v(dot(vec(a), vec(b))); }
  public static Value MaxQ(Value s) { Q m = null; for (Q x : vec(s)) { if (x.k == Q.NAN) return v(NAN); if (m == null || lt(m, x)) m = x; } return v(m == null ? NAN : m); }
  public static Value MinQ(Value s) { Q m = null; for (Q x : vec(s)) { if (x.k == Q.NAN) return v(NAN); if (m == null || lt(x, m)) m = x; } return v(m == null ? NAN : m); }
  public static Value SortQ(Value s) { Q[] x = vec(s); Arrays.sort(x, Num::cmpTotal); return tup(x); }
  /** population variance with the given degrees-of-freedom correction */
  public static Value VarQ(Value s, Value ddof) {
    Q[] x = vec(s); int n = x.length - ((IntValue) ddof).val;
    if (n <= 0) return v(NAN);
    Q m = div(sum(x), q(IntValue.gen(x.length)));
    Q[] y = new Q[x.length]; for (int i = 0; i < y.length; i++) { Q e = sub(x[i], m); y[i] = mul(e, e); }
    return v(div(sum(y), q(IntValue.gen(n))));
  }
  public static Value Force(Value a) { return force(a); }
  static Value force(Value a) {
    if (a instanceof FcnLambdaValue || a instanceof FcnRcdValue || a instanceof TupleValue) {
      Value t = a.toTuple();
      if (t instanceof TupleValue) {
        Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
        for (int i = 0; i < e.length; i++) r[i] = force(e[i]);
        return new TupleValue(r);
      }
      Value f = a.toFcnRcd();
      if (f instanceof FcnRcdValue) {
        FcnRcdValue g = (FcnRcdValue) f;
        Value[] dom = g.getDomainAsValues(), r = new Value[g.values.length];
        for (int i = 0; i < r.length; i++) r[i] = force(g.values[i]);
        Value fr = new FcnRcdValue(dom, r, false);
        fr.normalize();
        return fr;
      }
      return f;
    }
    if (a instanceof RecordValue) {
      RecordValue g = (RecordValue) a;
      Value[] r = new Value[g.values.length];
      for (int i = 0; i < r.length; i++) r[i] = force(g.values[i]);
      return new RecordValue(g.names, r, false);
    }
    if (a instanceof LazyValue) throw new RuntimeException("lazy");
    return a;
  }

  // ---- linear algebra --------------------------------------------------------------------
  static Q[][] mm(Q[][] a, Q[][] b) {
    int n = a.length, m = b.length == 0 ? 0 : b[0].length;
    Q[][] r = new Q[n][m];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      Q[] p = new Q[b.length]; for (int k = 0; k < b.length; k++) p[k] = mul(a[i][k], b[k][j]); r[i][j] = sum(p);
    }
    return r;
  }
  static Q[][] tr(Q[][] a) { int n = a.length, m = n == 0 ? 0 : a[0].length; Q[][] r = new Q[m][n]; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[j][i] = a[i][j]; return r; }
  public static Value MatMul(Value a, Value b) { return tup(mm(mat(a), mat(b))); }
  public static Value MatVec(Value a, Value b) { Q[][] m = mat(a); Q[] x = vec(b), r = new Q[m.length]; for (int i = 0; i < r.length; i++) r[i] = dot(m[i], x); return tup(r); }
  public static Value Transp(Value a) { return tup(tr(mat(a))); }
  public static Value Gram(Value a) { Q[][] m = mat(a); return tup(mm(tr(m), m)); }
  public static Value RndV(Value a) { Q[] x = vec(a); for (int i = 0; i < x.length; i++) x[i] = rnd(x[i]); return tup(x); }
  public static Value RndM(Value a) { Q[][] x = mat(a); for (Q[] r : x) for (int i = 0; i < r.length; i++) r[i] = rnd(r[i]); return tup(x); }
  /** reduced row echelon form in place; returns pivot columns (scanned left to right, first ncols columns) */
  static int[] rref(Q[][] a, int ncols) {
    int r = 0; List<Integer> piv = new ArrayList<>();
    for (int c = 0; c < ncols && r < a.length; c++) {
      int p = -1;
      for (int i = r; i < a.length; i++) if (a[i][c].n.signum() != 0) { if (p < 0 || a[i][c].d.bitLength() + a[i][c].n.bitLength() < a[p][c].d.bitLength() + a[p][c].n.bitLength()) p = i; }
      if (p < 0) continue;
      Q[] t = a[p]; a[p] = a[r]; a[r] = t;
      Q pv = a[r][c];
      for (int j = c; j < a[r].length; j++) a[r][j] = div(a[r][j], pv);
      for (int i = 0; i < a.length; i++) if (i != r && a[i][c].n.signum() != 0) {
        Q f = a[i][c];
        for (int j = c; j < a[i].length; j++) if (a[r][j].n.signum() != 0) a[i][j] = sub(a[i][j], mul(f, a[r][j]));
      }
      piv.add(c); r++;
    }
    int[] o = new int[piv.size()]; for (int i = 0; i < o.length; i++) o[i] = piv.get(i); return o;
  }
  static Q[][] cp(Q[][] a) { Q[][] r = new Q[a.length][]; for (int i = 0; i < r.length; i++) { r[i] = a[i].clone(); for (Q x : r[i]) if (!x.fin()) throw new RuntimeException("non-finite entry in linear algebra"); } return r; }
  /** rank over the rationals */
  public static Value RankQ(Value a) { Q[][] m = cp(mat(a)); return IntValue.gen(m.length == 0 ? 0 : rref(m, m[0].length).length); }
  /** greedy left-to-right independent column indices (1-based) of a */
  public static Value PivotCols(Value a) { Q[][] m = cp(mat(a)); int[] p = m.length == 0 ? new int[0] : rref(m, m[0].length); Value[] e = new Value[p.length]; for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(p[i] + 1); return new TupleValue(e); }
  /** some x with a x = b, << >> if there is none; free variables are zero */
  public static Value SolveQ(Value a, Value b) {
    Q[][] m = cp(mat(a)); Q[] y = vec(b); int n = m.length, c = n == 0 ? 0 : m[0].length;
    Q[][] w = new Q[n][c + 1];
    for (int i = 0; i < n; i++) { System.arraycopy(m[i], 0, w[i], 0, c); w[i][c] = y[i]; if (!y[i].fin()) throw new RuntimeException("non-finite rhs"); }
    int[] p = rref(w, c);
    for (int i = p.length; i < n; i++) if (w[i][c].n.signum() != 0) return new TupleValue(new Value[0]);
    Q[] x = new Q[c]; Arrays.fill(x, ZERO);
    for (int i = 0; i < p.length; i++) x[p[i]] = w[i][c];
    return tup(x);
  }
  /** inverse, << >> if singular */
  public static Value InvQ(Value a) {
    Q[][] m = cp(mat(a)); int n = m.length; Q[][] w = new Q[n][2 * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { w[i][j] = m[i][j]; w[i][n + j] = i == j ? ONE : ZERO; }
    if (rref(w, n).length < n) return new TupleValue(new Value[0]);
    Q[][] r = new Q[n][n]; for (int i = 0; i < n; i++) System.arraycopy(w[i], n, r[i], 0, n);
    return tup(r);
  }

  // ---- special functions (double precision, about 1e-13) ----------------------------------
  static double lgam(double x) {
    double[] c = {0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7};
    if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgam(1 - x);
    x -= 1; double a = c[0], t = x + 7.5; for (int i = 1; i < 9; i++) a += c[i] / (x + i);
    return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(a);
  }
  static double gammaP(double a, double x) { // lower regularized
    if (x <= 0) return 0;
    if (x < a + 1) return gser(a, x);
    return 1 - gcf(a, x);
  }
  static double gammaQ(double a, double x) { if (x <= 0) return 1; if (x < a + 1) return 1 - gser(a, x); return gcf(a, x); }
  static double gser(double a, double x) { double ap = a, s = 1 / a, d = s; for (int i = 0; i < 100000; i++) { ap++; d *= x / ap; s += d; if (Math.abs(d) < Math.abs(s) * 1e-17) break; } return s * Math.exp(-x + a * Math.log(x) - lgam(a)); }
  static double gcf(double a, double x) {
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
    for (int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if (Math.abs(d) < 1e-300) d = 1e-300; c = b + an / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del; if (Math.abs(del - 1) < 1e-16) break; }
    return Math.exp(-x + a * Math.log(x) - lgam(a)) * h;
  }
  static double nsf(double z) { return z >= 0 ? 0.5 * gammaQ(0.5, z * z / 2) : 1 - 0.5 * gammaQ(0.5, z * z / 2); }
  static double ibeta(double a, double b, double x) {
    if (x <= 0) return 0; if (x >= 1) return 1;
    double bt = Math.exp(lgam(a + b) - lgam(a) - lgam(b) + a * Math.log(x) + b * Math.log1p(-x));
    return x < (a + 1) / (a + b + 2) ? bt * bcf(a, b, x) / a : 1 - bt * bcf(b, a, 1 - x) / b;
  }
  static double bcf(double a, double b, double x) {
    double qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap; if (Math.abs(d) < 1e-300) d = 1e-300; d = 1 / d; double h = d;
    for (int m = 1; m < 100000; m++) {
      int m2 = 2 * m; double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
      d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; h *= d * c;
      aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
      d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del; if (Math.abs(del - 1) < 1e-16) break;
    }
    return h;
  }
  static double tsf(double t, double df) { // P(T > t)
    double p = 0.5 * ibeta(df / 2, 0.5, df / (df + t * t));
    return t >= 0 ? p : 1 - p;
  }
  /** upper tail of the standard normal */
  public static Value NormSf(Value a) { Q x = q(a); if (x.k == Q.NAN) return v(NAN); if (x.k == Q.PINF) return v(ZERO); if (x.k == Q.NINF) return v(ONE); return v(of(nsf(dbl(x)))); }
  /** upper tail of Student's t with df degrees of freedom */
  public static Value TSf(Value a, Value df) { Q x = q(a); if (x.k == Q.NAN) return v(NAN); if (x.k == Q.PINF) return v(ZERO); if (x.k == Q.NINF) return v(ONE); return v(of(tsf(dbl(x), dbl(q(df))))); }
  static final Map<String, Value> PPF = new HashMap<>();
  public static synchronized Value NormPpf(Value p) { double t = dbl(q(p)); Value c = PPF.get("" + t); if (c != null) return c; double lo = -40, hi = 40; for (int i = 0; i < 200; i++) { double m = (lo + hi) / 2; double f = m < 0 ? nsf(-m) - t : (1 - t) - nsf(m); if (f < 0) lo = m; else hi = m; } Value r = v(of((lo + hi) / 2)); PPF.put("" + t, r); return r; }
  public static synchronized Value TPpf(Value p, Value df) { double t = dbl(q(p)), d = dbl(q(df)); Value c = PPF.get(t + "/" + d); if (c != null) return c; double lo = -1, hi = 1; while (tsf(hi, d) > 1 - t) hi *= 2; while (tsf(-lo, d) > t) lo *= 2; for (int i = 0; i < 300; i++) { double m = (lo + hi) / 2; double f = m < 0 ? tsf(-m, d) - t : (1 - t) - tsf(m, d); if (f < 0) lo = m; else hi = m; } Value r = v(of((lo + hi) / 2)); PPF.put(t + "/" + d, r); return r; }
  public static Value Chi2Sf(Value x, Value df) { return v(of(gammaQ(dbl(q(df)) / 2, dbl(q(x)) / 2))); }
  /** F distribution upper tail */
  public static Value FSf(Value x, Value d1, Value d2) { double f = dbl(q(x)), a = dbl(q(d1)), b = dbl(q(d2)); return v(of(f <= 0 ? 1 : ibeta(b / 2, a / 2, b / (b + a * f)))); }
  /** noncentral chi-square upper tail */
  public static Value NcChi2Sf(Value x, Value df, Value nc) {
    double X = dbl(q(x)), k = dbl(q(df)), l = dbl(q(nc)) / 2; if (l <= 0) return v(of(gammaQ(k / 2, X / 2)));
    if (l > 1e5 && X < l) return v(of(1.0));      // the whole mass is above
    double s = 0; int m = (int) l; int lo = Math.max(0, (int) (l - 12 * Math.sqrt(l + 1) - 30)), hi = (int) (l + 12 * Math.sqrt(l + 1) + 60);
    for (int j = lo; j <= hi; j++) s += Math.exp(-l + j * Math.log(l) - lgam(j + 1)) * gammaQ(k / 2 + j, X / 2);
    return v(of(s));
  }
  public static Value Flat(Value a) {
    ArrayList<Value> r = new ArrayList<>();
    for (Value x : ((TupleValue) a.toTuple()).elems) for (Value y : ((TupleValue) x.toTuple()).elems) r.add(y);
    return new TupleValue(r.toArray(new Value[0]));
  }
  /** writes one value as a line "@@ <json>"; TRUE */
  public static Value Emit(Value a) {
    StringBuilder sb = new StringBuilder("@@ "); json(a, sb); sb.append('\n');
    synchronized (System.out) { System.out.print(sb); System.out.flush(); }
    return BoolValue.ValTrue;
  }
  static void str(String s, StringBuilder sb) {
    sb.append('"');
    for (char c : s.toCharArray()) { if (c == '"' || c == '\\') sb.append('\\').append(c); else if (c < 32) sb.append(' '); else sb.append(c); }
    sb.append('"');
  }
  static void json(Value a, StringBuilder sb) {
    if (a instanceof IntValue) sb.append(((IntValue) a).val);
    else if (a instanceof BoolValue) sb.append(((BoolValue) a).val);
    else if (a instanceof StringValue) str(((StringValue) a).val.toString(), sb);
    else if (a instanceof UserValue) str(show(q(a)), sb);
    else if (a instanceof RecordValue) {
      RecordValue r = (RecordValue) a; sb.append('{');
      for (int i = 0; i < r.names.length; i++) { if (i > 0) sb.append(','); str(r.names[i].toString(), sb); sb.append(':'); json(r.values[i], sb); }
      sb.append('}');
    } else {
      Value t = a.toTuple();
      if (t != null) list(((TupleValue) t).elems, sb);
      else if (a.toRcd() != null) json(a.toRcd(), sb);
      else {
        Value e = a.toSetEnum();
        if (e != null) { ((SetEnumValue) e).normalize(); list(((SetEnumValue) e).elems.toArray(), sb); }
        else if (a.toFcnRcd() != null) {
          FcnRcdValue f = (FcnRcdValue) a.toFcnRcd(); f.normalize();
          Value[] d = f.getDomainAsValues(); sb.append('[');
          for (int i = 0; i < d.length; i++) { if (i > 0) sb.append(','); sb.append('['); json(d[i], sb); sb.append(','); json(f.values[i], sb); sb.append(']'); }
          sb.append(']');
        } else str(a.toString(), sb);
      }
    }
  }
  static void list(Value[] e, StringBuilder sb) {
    sb.append('[');
    for (int i = 0; i < e.length; i++) { if (i > 0) sb.append(','); json(e[i], sb); }
    sb.append(']');
  }
  public static Value ExpN(Value a) { return v(of(Math.exp(dbl(q(a))))); }
  public static Value LnN(Value a) { return v(of(Math.log(dbl(q(a))))); }

  // ---- loading recorded traces -----------------------------------------------------------
  /** newline-delimited JSON; strings that start with '#' are numbers, null is the string "null" */
  public static Value LoadTrace(Value path) throws IOException {
    String p = ((StringValue) path).val.toString();
    List<Value> out = new ArrayList<>();
    try (BufferedReader br = new BufferedReader(new InputStreamReader(new FileInputStream(p), StandardCharsets.UTF_8))) {
      String line; while ((line = br.readLine()) != null) { if (line.trim().isEmpty()) continue; out.add(new J(line).value()); }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  static final class J {
    final String s; int i = 0; J(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value value() {
      ws(); char c = s.charAt(i);
      if (c == '{') {
        i++; TreeMap<String, Value> m = new TreeMap<>(); ws();
        if (s.charAt(i) == '}') { i++; } else while (true) { ws(); String k = str(); ws(); i++; m.put(k, value()); ws(); if (s.charAt(i++) == '}') break; }
        UniqueString[] n = new UniqueString[m.size()]; Value[] e = new Value[n.length]; int j = 0;
        for (Map.Entry<String, Value> x : m.entrySet()) { n[j] = UniqueString.uniqueStringOf(x.getKey()); e[j++] = x.getValue(); }
        return new RecordValue(n, e, false);
      }
      if (c == '[') {
        i++; List<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; } else while (true) { l.add(value()); ws(); if (s.charAt(i++) == ']') break; }
        return new TupleValue(l.toArray(new Value[0]));
      }
      if (c == '"') { String t = str(); if (t.startsWith("#")) return v(parse(t)); return new StringValue(t); }
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      if (s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
      int b = i; while (i < s.length() && "+-0123456789.eE".indexOf(s.charAt(i)) >= 0) i++;
      return IntValue.gen(Integer.parseInt(s.substring(b, i)));
    }
    String str() {
      StringBuilder sb = new StringBuilder(); i++;
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return sb.toString();
        if (c == '\\') {
          char d = s.charAt(i++);
          switch (d) { case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break; case 'r': sb.append('\r'); break; case 'b': sb.append('\b'); break; case 'f': sb.append('\f'); break;
            case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break; default: sb.append(d); }
        } else sb.append(c);
      }
    }
  }
}
