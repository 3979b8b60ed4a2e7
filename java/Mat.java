import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import com.google.gson.*;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC evaluation of the operators declared in spec/Mat.tla: dense matrices of
 * high precision decimals (40 significant digits).  A matrix is an opaque TLC
 * value; an integer counts as a 1x1 matrix everywhere.  Every operator is
 * total: a shape mismatch, a singular matrix or a non-matrix operand gives the
 * value POISON, which propagates and is Close to nothing.
 */
public class Mat {
    static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE;

    public static final class MObj extends UserObj {
        final BigDecimal[][] a;      // null: POISON
        final int r, c;
        final String why;
        MObj(BigDecimal[][] a, int r, int c) { this.a = a; this.r = r; this.c = c; this.why = null; }
        MObj(String why) { this.a = null; this.r = -1; this.c = -1; this.why = why; }
        public int compareTo(Value v) {
            if (!(v instanceof UserValue)) return -1;
            MObj o = (MObj) ((UserValue) v).userObj;
            if (a == null || o.a == null) return a == o.a ? 0 : (a == null ? -1 : 1);
            if (r != o.r) return Integer.compare(r, o.r);
            if (c != o.c) return Integer.compare(c, o.c);
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
                int k = a[i][j].compareTo(o.a[i][j]);
                if (k != 0) return k;
            }
            return 0;
        }
        public boolean member(Value v) { return false; }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
            if (a == null) return sb.append("POISON(" + why + ")");
            sb.append("[[");
            for (int i = 0; i < r && i < 12; i++) {
                if (i > 0) sb.append(" ; ");
                for (int j = 0; j < c && j < 12; j++) {
                    if (j > 0) sb.append(", ");
                    sb.append(new BigDecimal(a[i][j].toString(), new MathContext(10)).toString());
                }
            }
            return sb.append("]]");
        }
    }
    public static final class MVal extends UserValue {
        MVal(MObj o) { super(o); }
        public void deepNormalize() { }
        public long fingerPrint(long fp) {
            MObj o = (MObj) userObj;
            return tlc2.util.FP64.Extend(fp, o.toString());
        }
        public IValue permute(tlc2.value.IMVPerm p) { return this; }
    }

    static Value mk(BigDecimal[][] a) {
        return new MVal(new MObj(a, a.length, a.length == 0 ? 0 : a[0].length));
    }
    static Value mk(BigDecimal[][] a, int r, int c) { return new MVal(new MObj(a, r, c)); }
    static Value poison(String w) { return new MVal(new MObj(w)); }
    static Value sc(BigDecimal x) { return mk(new BigDecimal[][] { { x } }); }
    static Value dbl(double d) {
        if (Double.isNaN(d) || Double.isInfinite(d)) return poison("nonfinite");
        return sc(new BigDecimal(d, MC));
    }
    static MObj m(Value v) {
        
        if (v instanceof UserValue) return (MObj) ((UserValue) v).userObj;
        if (v instanceof IntValue) return new MObj(new BigDecimal[][] { { new BigDecimal(((IntValue) v).val) } }, 1, 1);
        return new MObj("not a matrix");
    }
    static boolean bad(MObj x) { return x.a == null; }
    static Value pp(MObj... xs) { for (MObj x : xs) if (x.a == null) return poison(x.why); return poison("?"); }
    static BigDecimal[][] z(int r, int c) {
        BigDecimal[][] a = new BigDecimal[r][c];
        for (BigDecimal[] q : a) Arrays.fill(q, ZERO);
        return a;
    }
    interface Bin { BigDecimal f(BigDecimal x, BigDecimal y); }
    static Value zip(Value x, Value y, Bin f) {
        MObj A = m(x), B = m(y);
        if (bad(A) || bad(B)) return pp(A, B);
        int r = Math.max(A.r, B.r), c = Math.max(A.c, B.c);
        if ((A.r != r && A.r != 1) || (B.r != r && B.r != 1) || (A.c != c && A.c != 1) || (B.c != c && B.c != 1))
            return poison("shape " + A.r + "x" + A.c + " vs " + B.r + "x" + B.c);
        BigDecimal[][] o = new BigDecimal[r][c];
        try {
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++)
                o[i][j] = f.f(A.a[A.r == 1 ? 0 : i][A.c == 1 ? 0 : j], B.a[B.r == 1 ? 0 : i][B.c == 1 ? 0 : j]);
        } catch (ArithmeticException e) { return poison("arith " + e.getMessage()); }
        return mk(o, r, c);
    }
    interface Un { BigDecimal f(BigDecimal x); }
    static Value map(Value x, Un f) {
        MObj A = m(x);
        if (bad(A)) return pp(A);
        BigDecimal[][] o = new BigDecimal[A.r][A.c];
        try {
            for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) o[i][j] = f.f(A.a[i][j]);
        } catch (ArithmeticException | NumberFormatException e) { return poison("arith " + e.getMessage()); }
        return mk(o, A.r, A.c);
    }
    static BigDecimal bd(double d) { return new BigDecimal(d, MC); }

    // ---- elementwise ----------------------------------------------------
    public static Value MAdd(Value x, Value y) { return zip(x, y, (p, q) -> p.add(q, MC)); }
    public static Value MSub(Value x, Value y) { return zip(x, y, (p, q) -> p.subtract(q, MC)); }
    public static Value MHad(Value x, Value y) { return zip(x, y, (p, q) -> (p.signum() == 0 || q.signum() == 0) ? ZERO : p.multiply(q, MC)); }
    public static Value MDiv(Value x, Value y) { return zip(x, y, (p, q) -> p.divide(q, MC)); }
    public static Value MMaxE(Value x, Value y) { return zip(x, y, (p, q) -> p.max(q)); }
    public static Value MNeg(Value x) { return map(x, p -> p.negate()); }
    public static Value MAbs(Value x) { return map(x, p -> p.abs()); }
    public static Value MSqrt(Value x) { return map(x, p -> { if (p.signum() < 0) throw new ArithmeticException("sqrt<0"); return p.signum() == 0 ? ZERO : p.sqrt(MC); }); }
    public static Value MLog(Value x) { return map(x, p -> log(p)); }
    public static Value MExp(Value x) { return map(x, p -> exp(p)); }
    public static Value MSign(Value x) { return map(x, p -> new BigDecimal(p.signum())); }
    public static Value MNormCdf(Value x) { return map(x, p -> bd(phi(p.doubleValue()))); }
    public static Value MNormPdf(Value x) { return map(x, p -> bd(Math.exp(-0.5 * p.doubleValue() * p.doubleValue()) / Math.sqrt(2 * Math.PI))); }
    public static Value MPowE(Value x, Value y) { return zip(x, y, (p, q) -> {
        try { int k = q.intValueExact(); if (k >= 0) return p.pow(k, MC); return ONE.divide(p.pow(-k, MC), MC); } catch (ArithmeticException e) { }
        if (p.signum() < 0) throw new ArithmeticException("pow"); if (p.signum() == 0) return ZERO;
        return exp(q.multiply(log(p), MC)); }); }
    static final BigDecimal LN2 = lnSmall(new BigDecimal(2));
    // ln by series with argument reduction: x = m * 2^k, m in [0.7,1.4]
    static BigDecimal lnSmall(BigDecimal x) {
        // atanh series: ln x = 2 atanh((x-1)/(x+1))
        MathContext mc = new MathContext(50);
        BigDecimal t = x.subtract(ONE).divide(x.add(ONE), mc), t2 = t.multiply(t, mc), s = t, p = t;
        for (int k = 3; k < 400; k += 2) {
            p = p.multiply(t2, mc);
            BigDecimal d = p.divide(new BigDecimal(k), mc);
            if (d.signum() == 0 || d.abs().compareTo(new BigDecimal("1e-48")) < 0) break;
            s = s.add(d, mc);
        }
        return s.multiply(new BigDecimal(2), mc);
    }
    static BigDecimal log(BigDecimal x) {
        if (x.signum() <= 0) throw new ArithmeticException("log<=0");
        double d = x.doubleValue();
        int k;
        if (d > 0 && !Double.isInfinite(d)) k = Math.getExponent(d); else throw new ArithmeticException("log range");
        BigDecimal two = new BigDecimal(2);
        BigDecimal mnt = k >= 0 ? x.divide(two.pow(k), new MathContext(50)) : x.multiply(two.pow(-k), new MathContext(50));
        if (mnt.doubleValue() > 1.414) { mnt = mnt.divide(two, new MathContext(50)); k++; }
        return lnSmall(mnt).add(LN2.multiply(new BigDecimal(k)), MC);
    }
    static BigDecimal exp(BigDecimal x) {
        MathContext mc = new MathContext(55);
        if (x.compareTo(new BigDecimal(700)) > 0) throw new ArithmeticException("exp range");
        if (x.compareTo(new BigDecimal(-700)) < 0) return ZERO;
        BigDecimal r = x.divide(new BigDecimal(1024), mc), s = ONE, t = ONE;
        for (int k = 1; k < 100; k++) {
            t = t.multiply(r, mc).divide(new BigDecimal(k), mc);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-54")) < 0) break;
            s = s.add(t, mc);
        }
        for (int k = 0; k < 10; k++) s = s.multiply(s, mc);
        return s.round(MC);
    }

    // ---- linear algebra -------------------------------------------------
    static BigDecimal[][] mul(BigDecimal[][] A, BigDecimal[][] B, int r, int k, int c) {
        BigDecimal[][] o = z(r, c);
        for (int i = 0; i < r; i++) for (int l = 0; l < k; l++) {
            BigDecimal p = A[i][l];
            if (p.signum() == 0) continue;
            BigDecimal[] bl = B[l], oi = o[i];
            for (int j = 0; j < c; j++) if (bl[j].signum() != 0) oi[j] = oi[j].add(p.multiply(bl[j], MC), MC);
        }
        return o;
    }
    public static Value MMul(Value x, Value y) {
        MObj A = m(x), B = m(y);
        if (bad(A) || bad(B)) return pp(A, B);
        if ((A.r == 1 && A.c == 1) || (B.r == 1 && B.c == 1)) return MHad(x, y);
        if (A.c != B.r) return poison("matmul " + A.r + "x" + A.c + " * " + B.r + "x" + B.c);
        return mk(mul(A.a, B.a, A.r, A.c, B.c), A.r, B.c);
    }
    public static Value Tr(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        BigDecimal[][] o = new BigDecimal[A.c][A.r];
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) o[j][i] = A.a[i][j];
        return mk(o, A.c, A.r);
    }
    public static Value Solve(Value x, Value y) {
        MObj A = m(x), B = m(y);
        if (bad(A) || bad(B)) return pp(A, B);
        int n = A.r, c = B.c;
        if (A.c != n || B.r != n) return poison("solve shape");
        BigDecimal[][] L = new BigDecimal[n][], R = new BigDecimal[n][];
        BigDecimal mx = ZERO;
        for (int i = 0; i < n; i++) { L[i] = A.a[i].clone(); R[i] = B.a[i].clone(); for (BigDecimal q : L[i]) mx = mx.max(q.abs()); }
        BigDecimal eps = mx.multiply(new BigDecimal("1e-28"));
        for (int p = 0; p < n; p++) {
            int best = p;
            for (int i = p + 1; i < n; i++) if (L[i][p].abs().compareTo(L[best][p].abs()) > 0) best = i;
            if (L[best][p].abs().compareTo(eps) <= 0) return poison("singular");
            BigDecimal[] t = L[p]; L[p] = L[best]; L[best] = t; t = R[p]; R[p] = R[best]; R[best] = t;
            BigDecimal inv = ONE.divide(L[p][p], MC);
            for (int i = p + 1; i < n; i++) {
                if (L[i][p].signum() == 0) continue;
                BigDecimal f = L[i][p].multiply(inv, MC).negate();
                for (int j = p + 1; j < n; j++) if (L[p][j].signum() != 0) L[i][j] = L[i][j].add(f.multiply(L[p][j], MC), MC);
                for (int j = 0; j < c; j++) if (R[p][j].signum() != 0) R[i][j] = R[i][j].add(f.multiply(R[p][j], MC), MC);
                L[i][p] = ZERO;
            }
        }
        for (int p = n - 1; p >= 0; p--) {
            for (int j = 0; j < c; j++) {
                BigDecimal s = R[p][j];
                for (int k = p + 1; k < n; k++) if (L[p][k].signum() != 0 && R[k][j].signum() != 0) s = s.subtract(L[p][k].multiply(R[k][j], MC), MC);
                R[p][j] = s.divide(L[p][p], MC);
            }
        }
        return mk(R, n, c);
    }
    static BigDecimal[][] eye(int n) { BigDecimal[][] o = z(n, n); for (int i = 0; i < n; i++) o[i][i] = ONE; return o; }
    public static Value Inv(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        if (A.r != A.c) return poison("inv shape");
        return Solve(x, mk(eye(A.r), A.r, A.r));
    }
    /** log |det A| as 1x1 */
    public static Value LogDet(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        int n = A.r; if (A.c != n) return poison("det shape");
        BigDecimal[][] L = new BigDecimal[n][];
        for (int i = 0; i < n; i++) L[i] = A.a[i].clone();
        BigDecimal s = ZERO;
        for (int p = 0; p < n; p++) {
            int best = p;
            for (int i = p + 1; i < n; i++) if (L[i][p].abs().compareTo(L[best][p].abs()) > 0) best = i;
            if (L[best][p].signum() == 0) return poison("singular");
            BigDecimal[] t = L[p]; L[p] = L[best]; L[best] = t;
            s = s.add(log(L[p][p].abs()), MC);
            BigDecimal inv = ONE.divide(L[p][p], MC);
            for (int i = p + 1; i < n; i++) {
                if (L[i][p].signum() == 0) continue;
                BigDecimal f = L[i][p].multiply(inv, MC).negate();
                for (int j = p + 1; j < n; j++) if (L[p][j].signum() != 0) L[i][j] = L[i][j].add(f.multiply(L[p][j], MC), MC);
            }
        }
        return sc(s);
    }
    /** eigenvalues of a symmetric matrix (ascending column), cyclic Jacobi in doubles */
    public static Value EigSym(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        int n = A.r; if (A.c != n) return poison("eig shape");
        double[][] a = new double[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = A.a[i][j].add(A.a[j][i]).doubleValue() / 2;
        for (int sweep = 0; sweep < 100; sweep++) {
            double off = 0, tot = 0;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += a[i][j] * a[i][j]; if (i != j) off += a[i][j] * a[i][j]; }
            if (off <= 1e-30 * tot) break;
            for (int p = 0; p < n - 1; p++) for (int q = p + 1; q < n; q++) {
                if (a[p][q] == 0) continue;
                double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                double t = Math.copySign(1, th) / (Math.abs(th) + Math.sqrt(th * th + 1));
                if (th == 0) t = 1;
                double c = 1 / Math.sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; k++) { double u = a[k][p], v = a[k][q]; a[k][p] = c * u - s * v; a[k][q] = s * u + c * v; }
                for (int k = 0; k < n; k++) { double u = a[p][k], v = a[q][k]; a[p][k] = c * u - s * v; a[q][k] = s * u + c * v; }
            }
        }
        double[] e = new double[n];
        for (int i = 0; i < n; i++) e[i] = a[i][i];
        Arrays.sort(e);
        BigDecimal[][] o = new BigDecimal[n][1];
        for (int i = 0; i < n; i++) o[i][0] = bd(e[i]);
        return mk(o, n, 1);
    }
    public static Value Kron(Value x, Value y) {
        MObj A = m(x), B = m(y); if (bad(A) || bad(B)) return pp(A, B);
        BigDecimal[][] o = z(A.r * B.r, A.c * B.c);
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) if (A.a[i][j].signum() != 0)
            for (int k = 0; k < B.r; k++) for (int l = 0; l < B.c; l++)
                if (B.a[k][l].signum() != 0) o[i * B.r + k][j * B.c + l] = A.a[i][j].multiply(B.a[k][l], MC);
        return mk(o, A.r * B.r, A.c * B.c);
    }
    // ---- shape ----------------------------------------------------------
    static int iv(Value v) { return v instanceof IntValue ? ((IntValue) v).val : m(v).a[0][0].intValue(); }
    static Value[] seq(Value v) {
        
        Value t = v.toTuple();
        return t == null ? null : ((TupleValue) t).elems;
    }
    public static Value Rows(Value x) { return IntValue.gen(m(x).r); }
    public static Value Cols(Value x) { return IntValue.gen(m(x).c); }
    public static Value IsMat(Value x) {
        
        boolean b = (x instanceof UserValue && ((MObj) ((UserValue) x).userObj).a != null) || x instanceof IntValue;
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value HCat(Value s) {
        Value[] e = seq(s); if (e == null || e.length == 0) return poison("hcat");
        int r = -1, c = 0;
        for (Value v : e) { MObj A = m(v); if (bad(A)) return pp(A); if (r >= 0 && A.r != r) return poison("hcat shape"); r = A.r; c += A.c; }
        BigDecimal[][] o = new BigDecimal[r][c]; int k = 0;
        for (Value v : e) { MObj A = m(v); for (int i = 0; i < r; i++) for (int j = 0; j < A.c; j++) o[i][k + j] = A.a[i][j]; k += A.c; }
        return mk(o, r, c);
    }
    public static Value VCat(Value s) {
        Value[] e = seq(s); if (e == null || e.length == 0) return poison("vcat");
        int r = 0, c = -1;
        for (Value v : e) { MObj A = m(v); if (bad(A)) return pp(A); if (c >= 0 && A.c != c) return poison("vcat shape"); c = A.c; r += A.r; }
        BigDecimal[][] o = new BigDecimal[r][]; int k = 0;
        for (Value v : e) { MObj A = m(v); for (int i = 0; i < A.r; i++) o[k++] = A.a[i].clone(); }
        return mk(o, r, c);
    }
    public static Value At(Value x, Value i, Value j) {
        MObj A = m(x); if (bad(A)) return pp(A);
        int p = iv(i) - 1, q = iv(j) - 1;
        if (p < 0 || q < 0 || p >= A.r || q >= A.c) return poison("index");
        return sc(A.a[p][q]);
    }
    public static Value ColsOf(Value x, Value s) {
        MObj A = m(x); Value[] e = seq(s); if (bad(A) || e == null) return pp(A, new MObj("cols"));
        BigDecimal[][] o = new BigDecimal[A.r][e.length];
        for (int j = 0; j < e.length; j++) { int q = iv(e[j]) - 1; if (q < 0 || q >= A.c) return poison("col index"); for (int i = 0; i < A.r; i++) o[i][j] = A.a[i][q]; }
        return mk(o, A.r, e.length);
    }
    public static Value RowsOf(Value x, Value s) {
        MObj A = m(x); Value[] e = seq(s); if (bad(A) || e == null) return pp(A, new MObj("rows"));
        BigDecimal[][] o = new BigDecimal[e.length][A.c];
        for (int i = 0; i < e.length; i++) { int p = iv(e[i]) - 1; if (p < 0 || p >= A.r) return poison("row index"); o[i] = A.a[p].clone(); }
        return mk(o, e.length, A.c);
    }
    public static Value Diag(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        int n = Math.max(A.r, A.c); BigDecimal[][] o = z(n, n);
        for (int i = 0; i < n; i++) o[i][i] = A.r == n ? A.a[i][0] : A.a[0][i];
        return mk(o, n, n);
    }
    public static Value DiagOf(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        int n = Math.min(A.r, A.c); BigDecimal[][] o = z(n, 1);
        for (int i = 0; i < n; i++) o[i][0] = A.a[i][i];
        return mk(o, n, 1);
    }
    public static Value Trace(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        BigDecimal s = ZERO; for (int i = 0; i < Math.min(A.r, A.c); i++) s = s.add(A.a[i][i], MC);
        return sc(s);
    }
    public static Value SumAll(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        BigDecimal s = ZERO; for (BigDecimal[] q : A.a) for (BigDecimal v : q) s = s.add(v, MC);
        return sc(s);
    }
    public static Value RowSums(Value x) {
        MObj A = m(x); if (bad(A)) return pp(A);
        BigDecimal[][] o = z(A.r, 1); for (int i = 0; i < A.r; i++) for (BigDecimal v : A.a[i]) o[i][0] = o[i][0].add(v, MC);
        return mk(o, A.r, 1);
    }
    public static Value ColSums(Value x) { return Tr(RowSums(Tr(x))); }
    public static Value MaxAll(Value x) {
        MObj A = m(x); if (bad(A) || A.r * A.c == 0) return pp(A);
        BigDecimal s = A.a[0][0]; for (BigDecimal[] q : A.a) for (BigDecimal v : q) s = s.max(v);
        return sc(s);
    }
    public static Value MinAll(Value x) {
        MObj A = m(x); if (bad(A) || A.r * A.c == 0) return pp(A);
        BigDecimal s = A.a[0][0]; for (BigDecimal[] q : A.a) for (BigDecimal v : q) s = s.min(v);
        return sc(s);
    }
    public static Value Ident(Value n) { int k = iv(n); return mk(eye(k), k, k); }
    public static Value Fill(Value r, Value c, Value v) {
        int p = iv(r), q = iv(c); MObj A = m(v); if (bad(A)) return pp(A);
        BigDecimal[][] o = new BigDecimal[p][q]; for (BigDecimal[] t : o) Arrays.fill(t, A.a[0][0]);
        return mk(o, p, q);
    }
    /** rows of x reshaped row-major into r x c */
    public static Value Reshape(Value x, Value r, Value c) {
        MObj A = m(x); if (bad(A)) return pp(A); int p = iv(r), q = iv(c);
        if (p * q != A.r * A.c) return poison("reshape");
        BigDecimal[][] o = new BigDecimal[p][q]; int k = 0;
        for (BigDecimal[] t : A.a) for (BigDecimal v : t) { o[k / q][k % q] = v; k++; }
        return mk(o, p, q);
    }
    public static Value FromSeq(Value s) {
        Value[] e = seq(s); if (e == null) return poison("fromseq");
        BigDecimal[][] o = new BigDecimal[e.length][1];
        for (int i = 0; i < e.length; i++) { MObj A = m(e[i]); if (bad(A)) return pp(A); o[i][0] = A.a[0][0]; }
        return mk(o, e.length, 1);
    }
    public static Value Rat(Value p, Value q) { return MDiv(p, q); }
    public static Value Dec(Value s) { return sc(new BigDecimal(((StringValue) s).val.toString())); }

    // ---- comparisons (BOOLEAN, total) -----------------------------------
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Lt(Value x, Value y) { MObj A = m(x), B = m(y); return b(!bad(A) && !bad(B) && A.a[0][0].compareTo(B.a[0][0]) < 0); }
    public static Value Le(Value x, Value y) { MObj A = m(x), B = m(y); return b(!bad(A) && !bad(B) && A.a[0][0].compareTo(B.a[0][0]) <= 0); }
    public static Value IntOf(Value x) { MObj A = m(x); return IntValue.gen(A.a[0][0].setScale(0, RoundingMode.FLOOR).intValue()); }
    /** shapes equal and |x-y| <= 10^-d (|y| + 10^-3 max|y|) + 10^-(d+4), elementwise */
    public static Value CloseD(Value x, Value y, Value d) {
        MObj A = m(x), B = m(y);
        if (bad(A) || bad(B) || A.r != B.r || A.c != B.c) return b(false);
        BigDecimal mx = ZERO; for (BigDecimal[] q : B.a) for (BigDecimal v : q) mx = mx.max(v.abs());
        int k = iv(d);
        BigDecimal rt = ONE.movePointLeft(k), at = ONE.movePointLeft(k + 4).add(mx.movePointLeft(k + 3));
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++)
            if (A.a[i][j].subtract(B.a[i][j]).abs().compareTo(B.a[i][j].abs().multiply(rt).add(at)) > 0) return b(false);
        return b(true);
    }
    /** covariance matrices: |x_ij - y_ij| <= 10^-d sqrt(y_ii y_jj) */
    public static Value CloseVm(Value x, Value y, Value d) {
        MObj A = m(x), B = m(y);
        if (bad(A) || bad(B) || A.r != B.r || A.c != B.c || A.r != A.c) return b(false);
        double rt = Math.pow(10, -iv(d));
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) {
            double t = Math.sqrt(Math.abs(B.a[i][i].doubleValue() * B.a[j][j].doubleValue())) * rt + 1e-15;
            if (Math.abs(A.a[i][j].subtract(B.a[i][j]).doubleValue()) > t) return b(false);
        }
        return b(true);
    }
    /** |x-y| <= tol elementwise */
    public static Value Within(Value x, Value y, Value tol) {
        MObj A = m(x), B = m(y), T = m(tol);
        if (bad(A) || bad(B) || bad(T) || A.r != B.r || A.c != B.c) return b(false);
        for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++)
            if (A.a[i][j].subtract(B.a[i][j]).abs().compareTo(T.a[0][0]) > 0) return b(false);
        return b(true);
    }

    // ---- distributions (1x1 or elementwise), doubles ---------------------
    static double lgamma(double x) {
        double[] g = { 0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313,
            -176.61502916214059, 12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7 };
        if (x < 0.5) return Math.log(Math.PI / Math.abs(Math.sin(Math.PI * x))) - lgamma(1 - x);
        x -= 1; double s = g[0]; double t = x + 7.5;
        for (int i = 1; i < 9; i++) s += g[i] / (x + i);
        return 0.5 * Math.log(2 * Math.PI) + (x + 0.5) * Math.log(t) - t + Math.log(s);
    }
    /** upper regularised incomplete gamma Q(a,x) */
    static double gammaQ(double a, double x) {
        if (x <= 0) return 1;
        if (x < a + 1) {
            double s = 1 / a, t = s;
            for (int k = 1; k < 10000; k++) { t *= x / (a + k); s += t; if (t < s * 1e-17) break; }
            return 1 - s * Math.exp(-x + a * Math.log(x) - lgamma(a));
        }
        double bb = x + 1 - a, c = 1e300, d = 1 / bb, h = d;
        for (int i = 1; i < 10000; i++) {
            double an = -i * (i - a); bb += 2; d = an * d + bb; if (Math.abs(d) < 1e-300) d = 1e-300;
            c = bb + an / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return Math.exp(-x + a * Math.log(x) - lgamma(a)) * h;
    }
    static double betacf(double a, double bb, double x) {
        double qab = a + bb, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
        if (Math.abs(d) < 1e-300) d = 1e-300; d = 1 / d; double h = d;
        for (int k = 1; k < 10000; k++) {
            int k2 = 2 * k; double aa = k * (bb - k) * x / ((qam + k2) * (a + k2));
            d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; h *= d * c;
            aa = -(a + k) * (qab + k) * x / ((a + k2) * (qap + k2));
            d = 1 + aa * d; if (Math.abs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (Math.abs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return h;
    }
    static double ibeta(double a, double bb, double x) {
        if (x <= 0) return 0; if (x >= 1) return 1;
        double f = Math.exp(lgamma(a + bb) - lgamma(a) - lgamma(bb) + a * Math.log(x) + bb * Math.log1p(-x));
        return x < (a + 1) / (a + bb + 2) ? f * betacf(a, bb, x) / a : 1 - f * betacf(bb, a, 1 - x) / bb;
    }
    static double erfc(double x) { double q = gammaQ(0.5, x * x); return x >= 0 ? q : 2 - q; }
    static double phi(double x) { return 0.5 * erfc(-x / Math.sqrt(2)); }
    public static Value Chi2Sf(Value x, Value df) { return zip(x, df, (p, q) -> bd(gammaQ(q.doubleValue() / 2, p.doubleValue() / 2))); }
    /** two-sided normal p-value */
    public static Value NormP(Value x) { return map(x, p -> bd(erfc(Math.abs(p.doubleValue()) / Math.sqrt(2)))); }
    /** upper tail of the standard normal */
    public static Value NormSf(Value x) { return map(x, p -> bd(phi(-p.doubleValue()))); }
    /** two-sided Student t p-value */
    public static Value TP(Value x, Value df) { return zip(x, df, (p, q) -> { double t = p.doubleValue(), v = q.doubleValue(); return bd(ibeta(v / 2, 0.5, v / (v + t * t))); }); }
    public static Value FSf(Value x, Value d1, Value d2) {
        final double a = m(d1).a[0][0].doubleValue(), c = m(d2).a[0][0].doubleValue();
        return map(x, p -> { double f = p.doubleValue(); return bd(ibeta(c / 2, a / 2, c / (c + a * f))); });
    }

    // ---- input ----------------------------------------------------------
    static BigDecimal num(String s) { return new BigDecimal(s, MC); }
    static Value conv(JsonElement e) {
        if (e.isJsonNull()) return new StringValue("null");
        if (e.isJsonPrimitive()) {
            JsonPrimitive p = e.getAsJsonPrimitive();
            if (p.isBoolean()) return b(p.getAsBoolean());
            if (p.isString()) return new StringValue(p.getAsString());
            String s = p.getAsString();
            if (s.matches("-?[0-9]{1,9}")) return IntValue.gen(Integer.parseInt(s));
            return sc(num(s));
        }
        if (e.isJsonArray()) {
            JsonArray a = e.getAsJsonArray(); Value[] v = new Value[a.size()];
            for (int i = 0; i < v.length; i++) v[i] = conv(a.get(i));
            return new TupleValue(v);
        }
        JsonObject o = e.getAsJsonObject();
        if (o.has("$m")) {
            JsonArray a = o.getAsJsonArray("$m"); int r = a.size(), c = o.has("$c") ? o.get("$c").getAsInt() : -1;
            BigDecimal[][] x = new BigDecimal[r][];
            for (int i = 0; i < r; i++) {
                JsonArray q = a.get(i).getAsJsonArray(); c = q.size(); x[i] = new BigDecimal[c];
                for (int j = 0; j < c; j++) x[i][j] = num(q.get(j).getAsString());
            }
            return mk(x, r, Math.max(c, 0));
        }
        List<UniqueString> names = new ArrayList<>(); List<Value> vals = new ArrayList<>();
        for (Map.Entry<String, JsonElement> en : o.entrySet()) { names.add(UniqueString.uniqueStringOf(en.getKey())); vals.add(conv(en.getValue())); }
        return new RecordValue(names.toArray(new UniqueString[0]), vals.toArray(new Value[0]), false);
    }
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    /** the sequence of recorded events in a file of one JSON object per line */
    static final Map<String, Value> CACHE = new HashMap<>();
    public static synchronized Value LoadTrace(Value path) throws IOException {
        String p = str(path);
        if (p.isEmpty()) return new TupleValue(new Value[0]);
        Value v = CACHE.get(p);
        if (v == null) {
            List<Value> out = new ArrayList<>();
            for (String line : Files.readAllLines(Paths.get(p), StandardCharsets.UTF_8))
                if (!line.isBlank()) { Value q = conv(JsonParser.parseString(line)); q.deepNormalize(); out.add(q); }
            v = new TupleValue(out.toArray(new Value[0]));
            CACHE.put(p, v);
        }
        return v;
    }
    /** total equality */
    public static Value Same(Value x, Value y) {
        try { return b(x.equals(y)); } catch (Throwable t) { return b(false); }
    }
    /** total field access: "absent" when r is no record or has no such field */
    public static Value Fld(Value r, Value f) {
        if (r instanceof RecordValue) {
            RecordValue q = (RecordValue) r; UniqueString u = UniqueString.uniqueStringOf(str(f));
            for (int i = 0; i < q.names.length; i++) if (q.names[i].equals(u)) return q.values[i];
        }
        return new StringValue("absent");
    }
    /** length of a sequence, -1 when it is none */
    public static Value SeqLen(Value s) {
        if (s instanceof TupleValue) return IntValue.gen(((TupleValue) s).elems.length);
        return IntValue.gen(-1);
    }
    public static Value StrHas(Value s, Value t) { return b(s instanceof StringValue && str(s).contains(str(t))); }
    public static Value Env(Value name) { String s = System.getenv(str(name)); return new StringValue(s == null ? "" : s); }
    public static Value Show(Value x) { return new StringValue(m(x).toString()); }
}
