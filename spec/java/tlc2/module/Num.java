package tlc2.module;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluation of Num.tla: real arithmetic as IEEE-754 doubles, and JSON input/output for it. */
public class Num {
  static double d(Value x) {
    if (x instanceof RealValue) return ((RealValue) x).v;
    if (x instanceof IntValue) return ((IntValue) x).val;
    if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
    throw new RuntimeException("Num: not a number: " + x);
  }
  static double parse(String s) {
    if (s.equals("NaN")) return Double.NaN;
    if (s.equals("Infinity")) return Double.POSITIVE_INFINITY;
    if (s.equals("-Infinity")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(s);
  }
  static Value r(double v) { return new RealValue(v); }
  static Value b(boolean v) { return v ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value R(Value a) { return r(d(a)); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value REq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLog(Value a) { return r(Math.log(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RTan(Value a) { return r(Math.tan(d(a))); }
  public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RTanh(Value a) { return r(Math.tanh(d(a))); }
  /** Error function: Taylor series for small arguments, continued fraction of erfc (Lentz) beyond. */
  public static Value RErf(Value a) { return r(erf(d(a))); }
  static double erf(double x) {
    if (Double.isNaN(x)) return x;
    double y = Math.abs(x), v;
    if (y > 6) v = 1;
    else if (y < 2.5) {
      double t = y, sum = y;
      for (int n = 1; n < 200; n++) { t *= -y * y / n; double u = t / (2 * n + 1); sum += u; if (Math.abs(u) < 1e-18 * Math.abs(sum)) break; }
      v = sum * 2 / Math.sqrt(Math.PI);
    } else {
      double f = 0;
      for (int k = 200; k >= 1; k--) f = (k / 2.0) / (y + f);
      v = 1 - Math.exp(-y * y) / ((y + f) * Math.sqrt(Math.PI));
    }
    return x < 0 ? -v : v;
  }
  public static Value RFloor(Value a) { return r(Math.floor(d(a))); }
  /** Python/NumPy float modulo: result has the sign of the divisor. */
  public static Value RMod(Value a, Value c) {
    double x = d(a), y = d(c), m = x % y;
    if (m != 0 && ((m < 0) != (y < 0))) m += y;
    return r(m);
  }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RToInt(Value a) {
    double x = d(a);
    if (!(Math.abs(x) < 2e9)) throw new RuntimeException("RToInt out of range: " + x);
    return IntValue.gen((int) x);
  }
  /** |a-b| <= tol*max(1,|a|,|b|) ; NaN close to NaN ; equal infinities close. */
  public static Value RClose(Value a, Value c, Value t) { return b(close(d(a), d(c), d(t))); }
  static boolean close(double x, double y, double t) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= t * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
  }
  /** |a-b| <= tol*(|a|+|b|) + abs */
  public static Value RNear(Value a, Value c, Value rel, Value abs) {
    double x = d(a), y = d(c);
    if (Double.isNaN(x) || Double.isNaN(y)) return b(Double.isNaN(x) && Double.isNaN(y));
    if (x == y) return b(true);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= d(rel) * (Math.abs(x) + Math.abs(y)) + d(abs));
  }

  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) { double t = 0; for (Value e : elems(s)) t += d(e); return r(t); }
  public static Value RMinSeq(Value s) {
    double t = Double.POSITIVE_INFINITY;
    for (Value e : elems(s)) { double x = d(e); if (Double.isNaN(x)) return r(x); t = Math.min(t, x); }
    return r(t);
  }
  public static Value RMaxSeq(Value s) {
    double t = Double.NEGATIVE_INFINITY;
    for (Value e : elems(s)) { double x = d(e); if (Double.isNaN(x)) return r(x); t = Math.max(t, x); }
    return r(t);
  }
  public static Value RDot(Value s, Value q) {
    Value[] a = elems(s), c = elems(q); double t = 0;
    for (int i = 0; i < a.length; i++) t += d(a[i]) * d(c[i]);
    return r(t);
  }
  public static Value RSeqClose(Value s, Value q, Value tol) {
    return b(deep(s, q, d(tol)));
  }
  /** structural comparison of nested sequences of numbers */
  static boolean deep(Value a, Value c, double tol) {
    if (isNum(a) && isNum(c)) return close(d(a), d(c), tol);
    if (isNum(a) || isNum(c)) return false;
    Value[] x = elems(a), y = elems(c);
    if (x.length != y.length) return false;
    for (int i = 0; i < x.length; i++) if (!deep(x[i], y[i], tol)) return false;
    return true;
  }
  static boolean isNum(Value a) { return a instanceof RealValue || a instanceof IntValue; }
  static boolean fin(Value a) {
    if (a instanceof RealValue) return !Double.isNaN(d(a)) && !Double.isInfinite(d(a));
    if (a instanceof IntValue) return true;
    for (Value e : elems(a)) if (!fin(e)) return false;
    return true;
  }
  /** Every number in the nested sequence is finite. */
  public static Value RSeqFinite(Value s) { return b(fin(s)); }
  static void flat(Value a, List<Value> out) {
    if (isNum(a)) { out.add(a); return; }
    for (Value e : elems(a)) flat(e, out);
  }
  public static Value RFlat(Value s) {
    List<Value> out = new ArrayList<>(); flat(s, out);
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
  /** Full evaluation of a (possibly lazily represented) function over 1..n into a sequence. */
  public static Value RForce(Value s) { Value t = s.toTuple(); if (t == null) return s; t.deepNormalize(); return t; }

  // ------------------------------------------------------------------ strings
  public static Value SCat(Value a, Value c) {
    return new StringValue(((StringValue) a).val.toString() + ((StringValue) c).val.toString());
  }
  public static Value IStr(Value a) { return new StringValue(a.toString().replace("\"", "")); }

  // ------------------------------------------------------------------ JSON
  public static Value JLoad(Value path) throws IOException {
    String p = ((StringValue) path).val.toString();
    String s = new String(Files.readAllBytes(Paths.get(p)), StandardCharsets.UTF_8);
    P q = new P(s); Value v = q.val(); q.ws();
    if (q.i != s.length()) throw new IOException("trailing data in " + p);
    return v;
  }
  public static Value JEnv(Value name) {
    String v = System.getenv(((StringValue) name).val.toString());
    return new StringValue(v == null ? "" : v);
  }
  static class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws(); char c = s.charAt(i);
      if (c == '[') {
        i++; List<Value> l = new ArrayList<>(); ws();
        if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
        while (true) { l.add(val()); ws(); char x = s.charAt(i++); if (x == ']') break; if (x != ',') throw new RuntimeException("JSON array at " + i); }
        return new TupleValue(l.toArray(new Value[0]));
      }
      if (c == '{') {
        i++; TreeMap<String, Value> m = new TreeMap<>(); ws();
        if (s.charAt(i) == '}') { i++; }
        else while (true) {
          ws(); String k = str(); ws(); if (s.charAt(i++) != ':') throw new RuntimeException("JSON object at " + i);
          m.put(k, val()); ws(); char x = s.charAt(i++); if (x == '}') break; if (x != ',') throw new RuntimeException("JSON object at " + i);
        }
        UniqueString[] n = new UniqueString[m.size()]; Value[] v = new Value[m.size()]; int j = 0;
        for (Map.Entry<String, Value> e : m.entrySet()) { n[j] = UniqueString.uniqueStringOf(e.getKey()); v[j++] = e.getValue(); }
        Value rv = new RecordValue(n, v, false); rv.normalize(); return rv;
      }
      if (c == '"') return new StringValue(str());
      int j = i; while (j < s.length() && ",]} \n\r\t:".indexOf(s.charAt(j)) < 0) j++;
      String t = s.substring(i, j); i = j;
      switch (t) {
        case "true": return BoolValue.ValTrue;
        case "false": return BoolValue.ValFalse;
        case "null": return new StringValue("null");
        case "NaN": case "Infinity": case "-Infinity": return r(parse(t));
      }
      if (t.indexOf('.') >= 0 || t.indexOf('e') >= 0 || t.indexOf('E') >= 0) return r(Double.parseDouble(t));
      long v = Long.parseLong(t);
      if (v > Integer.MAX_VALUE || v < Integer.MIN_VALUE) return r((double) v);
      return IntValue.gen((int) v);
    }
    String str() {
      if (s.charAt(i++) != '"') throw new RuntimeException("JSON string at " + i);
      StringBuilder sb = new StringBuilder();
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return sb.toString();
        if (c == '\\') {
          c = s.charAt(i++);
          switch (c) {
            case 'n': sb.append('\n'); break; case 't': sb.append('\t'); break; case 'r': sb.append('\r'); break;
            case 'b': sb.append('\b'); break; case 'f': sb.append('\f'); break;
            case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: sb.append(c);
          }
        } else sb.append(c);
      }
    }
  }
  static void ser(Value v, StringBuilder sb) {
    if (v instanceof RealValue) { double x = d(v); sb.append(Double.isNaN(x) ? "NaN" : Double.isInfinite(x) ? (x > 0 ? "Infinity" : "-Infinity") : Double.toString(x)); return; }
    if (v instanceof IntValue) { sb.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { sb.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { quote(((StringValue) v).val.toString(), sb); return; }
    if (v instanceof ModelValue) { quote(v.toString(), sb); return; }
    if (v instanceof RecordValue || v instanceof FcnRcdValue || v instanceof FcnLambdaValue) {
      Value t = v instanceof RecordValue ? null : v.toTuple();
      if (t == null) {
        RecordValue rr = (RecordValue) v.toRcd();
        if (rr == null) throw new RuntimeException("JSON: cannot serialise " + v);
        sb.append('{');
        for (int i = 0; i < rr.names.length; i++) { if (i > 0) sb.append(','); quote(rr.names[i].toString(), sb); sb.append(':'); ser(rr.values[i], sb); }
        sb.append('}'); return;
      }
      v = t;
    }
    if (v instanceof TupleValue) {
      sb.append('['); Value[] e = ((TupleValue) v).elems;
      for (int i = 0; i < e.length; i++) { if (i > 0) sb.append(','); ser(e[i], sb); }
      sb.append(']'); return;
    }
    Value se = v.toSetEnum();
    if (se != null) {
      SetEnumValue s = (SetEnumValue) se; s.normalize();
      sb.append('[');
      for (int i = 0; i < s.elems.size(); i++) { if (i > 0) sb.append(','); ser(s.elems.elementAt(i), sb); }
      sb.append(']'); return;
    }
    throw new RuntimeException("JSON: cannot serialise " + v);
  }
  static void quote(String s, StringBuilder sb) {
    sb.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
      else sb.append(c);
    }
    sb.append('"');
  }
  /** Append one JSON line to a file; TRUE. */
  public static synchronized Value JAppend(Value path, Value v) throws IOException {
    StringBuilder sb = new StringBuilder(); ser(v, sb); sb.append('\n');
    Files.write(Paths.get(((StringValue) path).val.toString()), sb.toString().getBytes(StandardCharsets.UTF_8),
        StandardOpenOption.CREATE, StandardOpenOption.APPEND);
    return BoolValue.ValTrue;
  }
}
