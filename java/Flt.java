// The Java side of spec/Flt.tla: IEEE-754 double arithmetic and a few text primitives for TLC.
// A number is a TLA+ string holding a decimal double ("0.25"), or a TLA+ integer.
// Nothing about fisx is here: only arithmetic, elementary functions, quadrature and comparison.
import tlc2.value.impl.*;
import util.UniqueString;
import java.util.*;

public class Flt {
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        String s = ((StringValue) v).val.toString();
        return p(s);
    }
    static double p(String s) {
        switch (s) {
            case "nan": case "-nan": return Double.NaN;
            case "inf": return Double.POSITIVE_INFINITY;
            case "-inf": return Double.NEGATIVE_INFINITY;
        }
        return Double.parseDouble(s);
    }
    static Value v(double x) {
        if (Double.isNaN(x)) return new StringValue("nan");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        if (x == 0.0) return new StringValue("0.0");
        return new StringValue(Double.toString(x));
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static String s(Value v) { return ((StringValue) v).val.toString(); }
    static double[] arr(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }

    public static Value Deep(Value a) { return force(a); }
    static Value force(Value v) {
        if (v instanceof FcnLambdaValue) { v = (Value) v.toFcnRcd(); }
        if (v instanceof FcnRcdValue) { Value[] w = ((FcnRcdValue) v).values; for (int i = 0; i < w.length; i++) w[i] = part(w[i]); }
        else if (v instanceof RecordValue) { Value[] w = ((RecordValue) v).values; for (int i = 0; i < w.length; i++) w[i] = part(w[i]); }
        else if (v instanceof TupleValue) { Value[] w = ((TupleValue) v).elems; for (int i = 0; i < w.length; i++) w[i] = part(w[i]); }
        return v;
    }
    private static Value part(Value x) { return x instanceof StringValue || x instanceof IntValue ? x : force(x); }
    public static Value FAdd(Value a, Value b) { return v(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return v(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return v(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return v(d(a) / d(b)); }
    public static Value FNeg(Value a) { return v(-d(a)); }
    public static Value FAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value FExp(Value a) { return v(Math.exp(d(a))); }
    public static Value FLog(Value a) { return v(Math.log(d(a))); }
    public static Value FSqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value FPow(Value a, Value b) { return v(Math.pow(d(a), d(b))); }
    public static Value FSinDeg(Value a) { return v(Math.sin(Math.toRadians(d(a)))); }
    public static Value FPi() { return v(Math.PI); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FIsFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value FCanon(Value a) { return v(d(a)); }
    public static Value FInt(Value a) { return IntValue.gen((int) d(a)); }
    public static Value FSumSeq(Value s) { double x = 0; for (double y : arr(s)) x += y; return v(x); }
    // 1-based index of the first element >= x; Len+1 if none
    public static Value FLowerBound(Value s, Value x) {
        double y = d(x); double[] a = arr(s);
        for (int i = 0; i < a.length; i++) if (a[i] >= y) return IntValue.gen(i + 1);
        return IntValue.gen(a.length + 1);
    }
    // y = y0^A * y1^B : log-log interpolation of (x0,y0),(x1,y1) at x
    public static Value FLogLog(Value x0, Value y0, Value x1, Value y1, Value x) {
        double X0 = d(x0), Y0 = d(y0), X1 = d(x1), Y1 = d(y1), X = d(x);
        double t = Math.log(X / X0) / Math.log(X1 / X0);
        return v(Math.exp((1 - t) * Math.log(Y0) + t * Math.log(Y1)));
    }

    static boolean near(double x, double y, double rel, double abs) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (x == y) return true;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= rel * Math.max(Math.abs(x), Math.abs(y)) + abs;
    }
    public static Value FNear(Value a, Value b, Value rel, Value abs) { return b(near(d(a), d(b), d(rel), d(abs))); }

    static boolean isNum(String s) {
        if (s.isEmpty()) return false;
        char c = s.charAt(0);
        if (s.equals("nan") || s.equals("inf") || s.equals("-inf")) return true;
        if (!(c == '-' || c == '.' || (c >= '0' && c <= '9'))) return false;
        char e = s.charAt(s.length() - 1);
        if (!(e == '.' || (e >= '0' && e <= '9'))) return false;
        try { Double.parseDouble(s); return true; } catch (NumberFormatException x) { return false; }
    }
    static boolean isMap(Value x) { return x instanceof RecordValue || x instanceof FcnRcdValue || x instanceof TupleValue || x instanceof FcnLambdaValue; }
    static Map<String, Value> fields(Value x) {
        TreeMap<String, Value> m = new TreeMap<>();
        if (x instanceof TupleValue) {
            Value[] e = ((TupleValue) x).elems;
            for (int i = 0; i < e.length; i++) m.put(String.valueOf(i + 1), e[i]);
        } else if (x instanceof RecordValue) {
            RecordValue r = (RecordValue) x;
            for (int i = 0; i < r.names.length; i++) m.put(r.names[i].toString(), r.values[i]);
        } else {
            FcnRcdValue f = (FcnRcdValue) x.toFcnRcd();
            Value[] dom = f.getDomainAsValues();
            for (int i = 0; i < dom.length; i++) {
                String k = dom[i] instanceof StringValue ? s(dom[i]) : dom[i].toString();
                m.put(k, f.values[i]);
            }
        }
        return m;
    }
    static String diff(Value a, Value b, double rel, double abs, String at) {
        if (a instanceof StringValue && s(a).equals("*")) return null;
        if (isMap(a) && isMap(b)) {
            Map<String, Value> x = fields(a), y = fields(b);
            for (String k : x.keySet()) if (!y.containsKey(k)) return at + "/" + k + ": missing in the code's answer";
            for (String k : y.keySet()) if (!x.containsKey(k)) return at + "/" + k + ": not predicted (got " + y.get(k) + ")";
            for (String k : x.keySet()) { String r = diff(x.get(k), y.get(k), rel, abs, at + "/" + k); if (r != null) return r; }
            return null;
        }
        if (a instanceof StringValue && b instanceof StringValue) {
            String x = s(a), y = s(b);
            if (x.equals(y)) return null;
            int at2 = x.indexOf('~');    // a number and its own allowance
            if (at2 > 0 && isNum(y)) return near(p(x.substring(0, at2)), p(y), rel, abs + p(x.substring(at2 + 1))) ? null : at + ": predicted " + x + ", got " + y;
            if (isNum(x) && isNum(y) && near(p(x), p(y), rel, abs)) return null;
            return at + ": predicted " + x + ", got " + y;
        }
        boolean na = a instanceof IntValue || (a instanceof StringValue && isNum(s(a)));
        boolean nb = b instanceof IntValue || (b instanceof StringValue && isNum(s(b)));
        if (na && nb) return near(d(a), d(b), rel, abs) ? null : at + ": predicted " + a + ", got " + b;
        try { if (a.equals(b)) return null; } catch (Exception e) { }
        return at + ": predicted " + a + ", got " + b;
    }
    static Value norm(Value v) {
        v.deepNormalize();
        if (v instanceof FcnLambdaValue) { Value t = (Value) ((FcnLambdaValue) v).toFcnRcd(); return t == null ? v : t; }
        return v;
    }
    // "" when the observed value agrees with the predicted one, else where and how it differs
    static final java.util.concurrent.atomic.AtomicInteger OPEN = new java.util.concurrent.atomic.AtomicInteger();
    // how many times nothing was predicted
    public static Value FOpen(Value any) { return IntValue.gen(OPEN.get()); }
    public static Value FDiff(Value a, Value b, Value rel, Value abs) {
        if (a instanceof StringValue && s(a).equals("*")) OPEN.incrementAndGet();
        String r = diff(conv(a), conv(b), d(rel), d(abs), "");
        return new StringValue(r == null ? "" : r);
    }
    static Value conv(Value v) {
        if (v instanceof FcnLambdaValue) {
            FcnLambdaValue f = (FcnLambdaValue) v;
            Value t = (Value) f.toTuple();
            if (t != null) return conv(t);
            return conv((Value) f.toFcnRcd());
        }
        if (v instanceof TupleValue) {
            Value[] e = ((TupleValue) v).elems; Value[] n = new Value[e.length];
            for (int i = 0; i < e.length; i++) n[i] = conv(e[i]);
            return new TupleValue(n);
        }
        if (v instanceof RecordValue) {
            RecordValue r = (RecordValue) v; Value[] n = new Value[r.values.length];
            for (int i = 0; i < n.length; i++) n[i] = conv(r.values[i]);
            return new RecordValue(r.names, n, false);
        }
        if (v instanceof FcnRcdValue) {
            FcnRcdValue r = (FcnRcdValue) v; Value[] n = new Value[r.values.length];
            for (int i = 0; i < n.length; i++) n[i] = conv(r.values[i]);
            return new FcnRcdValue(r.getDomainAsValues(), n, false);
        }
        return v;
    }

    // ------------------------------------------------------------------ text
    public static Value SChars(Value a) {
        String x = s(a); Value[] r = new Value[x.length()];
        for (int i = 0; i < r.length; i++) r[i] = new StringValue(x.substring(i, i + 1));
        return new TupleValue(r);
    }
    public static Value SJoin(Value a) {
        StringBuilder sb = new StringBuilder();
        for (Value x : ((TupleValue) a.toTuple()).elems) sb.append(s(x));
        return new StringValue(sb.toString());
    }
    public static Value SLt(Value a, Value b) {
        byte[] x = s(a).getBytes(java.nio.charset.StandardCharsets.UTF_8), y = s(b).getBytes(java.nio.charset.StandardCharsets.UTF_8);
        return b(Arrays.compareUnsigned(x, y) < 0);
    }
    public static Value SCode(Value a) { return IntValue.gen((int) s(a).charAt(0)); }
    // value of the longest prefix of the text that is a number, as C's strtod sees it: <<number, characters used>>; <<"0.0", 0>> if none
    public static Value SNumPrefix(Value a) {
        java.util.regex.Matcher m = NUM.matcher(s(a));
        if (!m.find()) return new TupleValue(new Value[]{v(0), IntValue.gen(0)});
        return new TupleValue(new Value[]{v(Double.parseDouble(m.group(1))), IntValue.gen(m.end())});
    }
    static final java.util.regex.Pattern NUM = java.util.regex.Pattern.compile("^\\s*([+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][+-]?[0-9]+)?)");

    // ------------------------------------------------------------------ special functions, by quadrature
    interface Fn { double f(double x); }
    static double gl(Fn f, double a, double b) {   // composite 16-point Gauss-Legendre, 8 panels
        int n = 8; double h = (b - a) / n, sum = 0;
        for (int i = 0; i < n; i++) {
            double c = a + (i + 0.5) * h, r = h / 2;
            for (int k = 0; k < 8; k++) sum += W16[k] * (f.f(c + r * X16[k]) + f.f(c - r * X16[k])) * r;
        }
        return sum;
    }
    static final double[] X16 = {0.0950125098376374402, 0.2816035507792589132, 0.4580167776572273863, 0.6178762444026437484, 0.7554044083550030339, 0.8656312023878317439, 0.9445750230732325761, 0.9894009349916499326};
    static final double[] W16 = {0.1894506104550684963, 0.1826034150449235889, 0.1691565193950025382, 0.1495959888165767321, 0.1246289712555338720, 0.0951585116824927848, 0.0622535239386478929, 0.0271524594117540949};
    static double e1(double x) {   // for x < 0, the real part: -Ei(-x)
        if (x == 0) return Double.POSITIVE_INFINITY;
        if (x < 0) {
            double sum = -0.57721566490153286061 - Math.log(-x), t = 1;
            for (int k = 1; k < 3000; k++) { t *= -x / k; sum -= t / k; }
            return sum;
        }
        if (x < 1.5) {   // series
            double sum = -0.57721566490153286061 - Math.log(x), t = 1;
            for (int k = 1; k < 60; k++) { t *= -x / k; sum -= t / k; }
            return sum;
        }
        return Math.exp(-x) * e1scaled(x);
    }
    static double e1scaled(double x) {   // exp(x) E1(x)
        if (x < -60) {   // to the smallest term of the asymptotic series
            double sum = 1, t = 1;
            for (int k = 1; k < 58; k++) { t *= -k / x; sum += t; }
            return sum / x;
        }
        if (x < 1.5) return Math.exp(x) * e1(x);
        // Lentz continued fraction
        double bb = x + 1, c = 1e300, dd = 1 / bb, h = dd;
        for (int i = 1; i < 500; i++) {
            double an = -(double) i * i; bb += 2; dd = 1 / (an * dd + bb); c = bb + an / c;
            double del = c * dd; h *= del; if (Math.abs(del - 1) < 1e-16) break;
        }
        return h;
    }
    public static Value FE1(Value x) { return v(e1(d(x))); }
    public static Value FE1Scaled(Value x) { return v(e1scaled(d(x))); }
    // E_n(x) = integral_1^inf exp(-x t)/t^n dt = integral_0^1 exp(-x/u) u^(n-2) du
    public static Value FEn(Value n, Value x) {
        int N = (int) d(n); double X = d(x);
        if (N == 0) return v(Math.exp(-X) / X);
        if (N == 1) return v(e1(X));
        if (X == 0) return v(1.0 / (N - 1));
        // substitution u = w^2 smooths the end point; many panels
        double sum = 0; int panels = 64;
        for (int i = 0; i < panels; i++) {
            double a = (double) i / panels, b = (double) (i + 1) / panels, c = (a + b) / 2, r = (b - a) / 2;
            for (int k = 0; k < 8; k++) for (int sg = -1; sg <= 1; sg += 2) {
                double w = c + sg * r * X16[k], u = w * w;
                sum += W16[k] * r * Math.exp(-X / u) * Math.pow(u, N - 2) * 2 * w;
            }
        }
        return v(sum);
    }
    public static Value FErf(Value x) { return v(erf(d(x))); }
    public static Value FErfc(Value x) { double X = d(x); return v(erfc(X)); }
    static double erf(double x) {
        if (x < 0) return -erf(-x);
        if (x > 3) return 1 - erfc(x);
        double t = x, s = x;
        for (int k = 1; k < 200; k++) { t *= -x * x / k; double u = t / (2 * k + 1); s += u; if (Math.abs(u) < 1e-18 * Math.abs(s)) break; }
        return 2 / Math.sqrt(Math.PI) * s;
    }
    static double erfc(double x) {
        if (x < 1.5) return 1 - erf(x);
        if (x > 26) return 0.0;
        double f = 0; for (int k = 400; k >= 1; k--) f = (k / 2.0) / (x + f);
        return Math.exp(-x * x) / Math.sqrt(Math.PI) / (x + f);
    }

    // tanh-sinh nodes on (0, 1): u (distance from 0), weight
    static final double[] TU, TW;
    static {
        int n = 60; double h = 3.2 / n; ArrayList<Double> u = new ArrayList<>(), w = new ArrayList<>();
        for (int k = -n; k <= n; k++) {
            double t = k * h, s = Math.PI / 2 * Math.sinh(t);
            u.add(1 / (1 + Math.exp(-2 * s)));
            w.add(h * Math.PI / 2 * Math.cosh(t) / (2 * Math.cosh(s) * Math.cosh(s)));
        }
        TU = new double[u.size()]; TW = new double[w.size()];
        for (int i = 0; i < TU.length; i++) { TU[i] = u.get(i); TW[i] = w.get(i); }
    }
    // integral over 0 < z < z' < d of exp(-m2 z - m1 z') E1(mj (z' - z))
    static double l0(double m1, double m2, double mj, double d) {
        double sum = 0;
        for (int i = 0; i < TU.length; i++) {
            double u = d * TU[i];
            sum += TW[i] * d * Math.exp(-m1 * u) * e1(mj * u) * -Math.expm1(-(m1 + m2) * (d - u)) / (m1 + m2);
        }
        return sum;
    }
    // integral over 0 < y < d1, 0 < x < d2 of exp(q y - p x) E1(a y + t + b x): E1(g) = integral of exp(-g s) ds/s over s > 1, s = exp(w)
    static double phi(double k, double d) { double x = k * d; return Math.abs(x) < 1e-12 ? d : Math.expm1(x) / k; }
    // the same times exp(-c)
    static double scaled(double k, double d, double c) { return k * d > 50 ? (Math.exp(k * d - c) - Math.exp(-c)) / k : phi(k, d) * Math.exp(-c); }
    static double xx(double p, double q, double d1, double d2, double a, double b, double t, double c) {
        double end = 36 + Math.max(0, Math.max(-Math.log(a * d1), -Math.log(b * d2)));
        if (t > 0) end = Math.min(end, Math.log(1 + 60 / t));
        int n = (int) Math.ceil(end / 0.7); double h = end / n, sum = 0;
        for (int i = 0; i < n; i++) {
            double m = (i + 0.5) * h, r = h / 2;
            for (int k = 0; k < 16; k++) {
                double w = k < 8 ? m + r * X16[k] : m - r * X16[k - 8], z = Math.exp(w);
                sum += W16[k & 7] * r * Math.exp(-t * z) * phi(q - a * z, d1) * scaled(-(p + b * z), d2, c);
            }
        }
        return sum;
    }
    public static Value FGroup(Value keys, Value vals) {
        TupleValue ks = (TupleValue) keys.toTuple(), vs = (TupleValue) vals.toTuple();
        TreeMap<String, double[]> m = new TreeMap<>(); LinkedHashMap<String, Value> names = new LinkedHashMap<>();
        for (int i = 0; i < ks.elems.length; i++) {
            double[] x = arr(vs.elems[i]), y = m.get(s(ks.elems[i]));
            if (y == null) { m.put(s(ks.elems[i]), x); names.put(s(ks.elems[i]), ks.elems[i]); } else for (int k = 0; k < x.length; k++) y[k] += x[k];
        }
        Value[] dom = new Value[m.size()], val = new Value[m.size()]; int n = 0;
        for (Map.Entry<String, Value> e : names.entrySet()) {
            double[] x = m.get(e.getKey()); Value[] t = new Value[x.length];
            for (int k = 0; k < t.length; k++) t[k] = v(x[k]);
            dom[n] = e.getValue(); val[n++] = new TupleValue(t);
        }
        FcnRcdValue f = new FcnRcdValue(dom, val, false); f.normalize(); return f;
    }
    public static Value FL0(Value a, Value b, Value c, Value e) { return v(l0(d(a), d(b), d(c), d(e))); }
    public static Value FX(Value x) { double[] a = arr(x); return v(xx(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a.length > 7 ? a[7] : 0)); }
}
