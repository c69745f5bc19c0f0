// TLC module override for spec/LBHost.tla: IEEE arithmetic, C number formatting
// and parsing, and the verifier's input and output files.
import java.io.*;
import java.math.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.regex.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class LBHost {
  // ---- text
  public static Value Txt(Value s) {
    String t = ((StringValue) s).val.toString();
    return tuple(t);
  }
  static Value tuple(String t) {
    Value[] v = new Value[t.length()];
    for (int i = 0; i < v.length; i++) v[i] = IntValue.gen(t.charAt(i));
    return new TupleValue(v);
  }
  static String text(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    StringBuilder b = new StringBuilder();
    for (Value e : t.elems) b.append((char) ((IntValue) e).val);
    return b.toString();
  }
  public static Value Str(Value t) { return new StringValue(text(t)); }

  // ---- numbers
  static boolean isNan(String s) { return s.endsWith("nan"); }
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static double d(String s) {
    switch (s) {
      case "inf": return Double.POSITIVE_INFINITY;
      case "-inf": return Double.NEGATIVE_INFINITY;
      case "nan": case "-nan": return Double.NaN;
      default: return Double.parseDouble(s);
    }
  }
  static double d(Value v) { return d(s(v)); }
  static String canon(double x) {
    if (Double.isNaN(x)) return "-nan"; // x86: an invalid operation gives the negative default NaN
    if (Double.isInfinite(x)) return x > 0 ? "inf" : "-inf";
    return Double.toString(x);
  }
  static Value num(double x) { return new StringValue(canon(x)); }
  // result of a binary operation, NaN operands propagating
  static Value bin(Value a, Value b, double r) {
    if (isNan(s(a))) return a;
    if (isNan(s(b))) return b;
    return num(r);
  }
  static Value un(Value a, double r) { return isNan(s(a)) ? a : num(r); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value NAdd(Value a, Value b) { return bin(a, b, d(a) + d(b)); }
  public static Value NSub(Value a, Value b) { return bin(a, b, d(a) - d(b)); }
  public static Value NMul(Value a, Value b) { return bin(a, b, d(a) * d(b)); }
  public static Value NDiv(Value a, Value b) { return bin(a, b, d(a) / d(b)); }
  public static Value NPow(Value a, Value b) {
    double x = d(a), y = d(b);
    if (y == 0 || x == 1) return num(1.0);            // C: even if the other is a NaN
    if (x == -1 && Double.isInfinite(y)) return num(1.0);
    return bin(a, b, Math.pow(x, y));
  }
  public static Value NNeg(Value a) {
    String t = s(a);
    if (t.equals("nan")) return new StringValue("-nan");
    if (t.equals("-nan")) return new StringValue("nan");
    return num(-d(a));
  }
  public static Value NAbs(Value a) { return isNan(s(a)) ? new StringValue("nan") : num(Math.abs(d(a))); }
  public static Value NFloor(Value a) { return un(a, Math.floor(d(a))); }
  public static Value NSin(Value a) { return un(a, Math.sin(d(a))); }
  public static Value NCos(Value a) { return un(a, Math.cos(d(a))); }
  public static Value NTan(Value a) { return un(a, Math.tan(d(a))); }
  public static Value NAtn(Value a) { return un(a, Math.atan(d(a))); }
  public static Value NExp(Value a) { return un(a, Math.exp(d(a))); }
  public static Value NLog(Value a) { return un(a, Math.log(d(a))); }
  public static Value NSqrt(Value a) { return un(a, Math.sqrt(d(a))); }
  public static Value NLT(Value a, Value b) { return bool(d(a) < d(b)); }
  public static Value NEQ(Value a, Value b) { return bool(d(a) == d(b)); }
  public static Value NNum(Value i) { return num(((IntValue) i).val); }
  public static Value NInt(Value a) {
    double x = d(a);
    if (x > 2e9) x = 2e9;
    if (x < -2e9) x = -2e9;
    return IntValue.gen((int) x);
  }
  public static Value NIsInt(Value a) { double x = d(a); return bool(Math.floor(x) == x); }
  public static Value NInInt32(Value a) { double x = d(a); return bool(x >= Integer.MIN_VALUE && x <= Integer.MAX_VALUE); }
  public static Value NGtUInt(Value a) { return bool(d(a) > 4294967295.0); }
  public static Value NAndInt(Value a, Value b) { return num((int) d(a) & (int) d(b)); }
  public static Value NOrInt(Value a, Value b) { return num((int) d(a) | (int) d(b)); }
  public static Value NNotInt(Value a) { return num(~(int) d(a)); }

  // C's %g
  static String fmt(String t) {
    if (t.equals("inf") || t.equals("-inf") || isNan(t)) return t;
    double x = Double.parseDouble(t);
    if (x == 0) return (1 / x < 0) ? "-0" : "0";
    BigDecimal b = new BigDecimal(x).round(new MathContext(6, RoundingMode.HALF_EVEN));
    int exp = b.precision() - b.scale() - 1;
    if (exp < -4 || exp >= 6) {
      String digits = b.unscaledValue().abs().toString();
      digits = digits.replaceAll("0+$", "");
      String m = digits.substring(0, 1) + (digits.length() > 1 ? "." + digits.substring(1) : "");
      return (x < 0 ? "-" : "") + m + "e" + (exp < 0 ? "-" : "+") + (Math.abs(exp) < 10 ? "0" : "") + Math.abs(exp);
    }
    String r = b.toPlainString();
    if (r.indexOf('.') >= 0) r = r.replaceAll("0+$", "").replaceAll("\\.$", "");
    return r;
  }
  public static Value NFmt(Value a) { return tuple(fmt(s(a))); }

  static final Pattern DEC = Pattern.compile("[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][+-]?[0-9]+)?");
  static final Pattern HEX = Pattern.compile("([+-]?)0[xX](?:([0-9a-fA-F]+)(?:\\.([0-9a-fA-F]*))?|\\.([0-9a-fA-F]+))(?:[pP]([+-]?[0-9]+))?");
  static final Pattern INF = Pattern.compile("([+-]?)inf(?:inity)?", Pattern.CASE_INSENSITIVE);
  static final Pattern NAN = Pattern.compile("([+-]?)nan(?:\\([0-9a-z_]*\\))?", Pattern.CASE_INSENSITIVE);
  static Value parsed(String v, int n) {
    return new TupleValue(new Value[] { new StringValue(v), IntValue.gen(n) });
  }
  public static Value NParse(Value v) {
    String t = text(v);
    Matcher m = HEX.matcher(t);
    if (m.lookingAt()) {
      String ip = m.group(2) != null ? m.group(2) : "";
      String fp = m.group(3) != null ? m.group(3) : m.group(4) != null ? m.group(4) : "";
      String h = m.group(1) + "0x" + (ip.isEmpty() ? "0" : ip) + (fp.isEmpty() ? "" : "." + fp) + "p" + (m.group(5) != null ? m.group(5) : "0");
      return parsed(canon(Double.parseDouble(h)), m.end());
    }
    m = DEC.matcher(t);
    if (m.lookingAt()) return parsed(canon(Double.parseDouble(m.group())), m.end());
    m = INF.matcher(t);
    if (m.lookingAt()) return parsed(m.group(1).equals("-") ? "-inf" : "inf", m.end());
    m = NAN.matcher(t);
    if (m.lookingAt()) return parsed(m.group(1).equals("-") ? "-nan" : "nan", m.end());
    return parsed("0.0", 0);
  }

  // ---- verifier's side
  // JSON reader: strings stay strings, arrays become sequences, objects records
  static class Json {
    final String t; int p = 0;
    Json(String t) { this.t = t; }
    void ws() { while (p < t.length() && Character.isWhitespace(t.charAt(p))) p++; }
    Value value() {
      ws();
      char c = t.charAt(p);
      if (c == '{') {
        p++;
        ArrayList<UniqueString> n = new ArrayList<>(); ArrayList<Value> v = new ArrayList<>();
        ws();
        while (t.charAt(p) != '}') {
          ws(); String k = str(); ws(); p++; v.add(value()); n.add(UniqueString.uniqueStringOf(k)); ws();
          if (t.charAt(p) == ',') p++;
          ws();
        }
        p++;
        RecordValue r = new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
        r.deepNormalize();
        return r;
      }
      if (c == '[') {
        p++;
        ArrayList<Value> v = new ArrayList<>();
        ws();
        while (t.charAt(p) != ']') { v.add(value()); ws(); if (t.charAt(p) == ',') p++; ws(); }
        p++;
        return new TupleValue(v.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      if (t.startsWith("true", p)) { p += 4; return BoolValue.ValTrue; }
      if (t.startsWith("false", p)) { p += 5; return BoolValue.ValFalse; }
      int q = p;
      while (p < t.length() && (Character.isDigit(t.charAt(p)) || t.charAt(p) == '-')) p++;
      return IntValue.gen(Integer.parseInt(t.substring(q, p)));
    }
    String str() {
      StringBuilder b = new StringBuilder();
      p++;
      while (t.charAt(p) != '"') {
        char c = t.charAt(p++);
        if (c == '\\') {
          c = t.charAt(p++);
          switch (c) {
            case 'n': c = '\n'; break; case 't': c = '\t'; break; case 'r': c = '\r'; break;
            case 'u': c = (char) Integer.parseInt(t.substring(p, p + 4), 16); p += 4; break;
          }
        }
        b.append(c);
      }
      p++;
      return b.toString();
    }
  }
  static Value sessions = null;
  public static synchronized Value LoadSessions(Value k) {
    if (sessions == null) {
      try {
        String f = System.getProperty("lb.sessions");
        sessions = new Json(new String(Files.readAllBytes(Paths.get(f)), "ISO-8859-1")).value();
      } catch (IOException e) { throw new RuntimeException(e); }
    }
    return sessions;
  }

  static final ConcurrentHashMap<String, LongAdder> tally = new ConcurrentHashMap<>();
  static {
    Runtime.getRuntime().addShutdownHook(new Thread(() -> {
      String f = System.getProperty("lb.tally");
      if (f == null) return;
      try (PrintWriter w = new PrintWriter(f)) {
        for (Map.Entry<String, LongAdder> e : new TreeMap<>(tally).entrySet())
          w.println(e.getKey() + " " + e.getValue().sum());
      } catch (IOException e) { }
    }));
  }
  public static Value Tally(Value k) {
    tally.computeIfAbsent(s(k), x -> new LongAdder()).increment();
    return BoolValue.ValTrue;
  }

  static PrintWriter out = null;
  static void json(Value v, StringBuilder b) {
    if (v instanceof IntValue) b.append(((IntValue) v).val);
    else if (v instanceof BoolValue) b.append(((BoolValue) v).val);
    else if (v instanceof StringValue) {
      b.append('"');
      String t = ((StringValue) v).val.toString();
      for (int i = 0; i < t.length(); i++) {
        char c = t.charAt(i);
        if (c == '"' || c == '\\') b.append('\\').append(c);
        else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
        else b.append(c);
      }
      b.append('"');
    }
    else if (v instanceof RecordValue) {
      RecordValue r = (RecordValue) v;
      b.append('{');
      for (int i = 0; i < r.names.length; i++) {
        if (i > 0) b.append(',');
        b.append('"').append(r.names[i]).append("\":");
        json(r.values[i], b);
      }
      b.append('}');
    }
    else if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue && v.toTuple() == null) {
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd();
      Value[] dom = f.getDomainAsValues();
      b.append('{');
      for (int i = 0; i < dom.length; i++) {
        if (i > 0) b.append(',');
        json(dom[i], b);
        b.append(':');
        json(f.values[i], b);
      }
      b.append('}');
    }
    else {
      Value t = v instanceof TupleValue ? v : v.toTuple();
      if (t == null) {
        SetEnumValue se = (SetEnumValue) v.toSetEnum();
        se.normalize();
        b.append('[');
        for (int i = 0; i < se.elems.size(); i++) { if (i > 0) b.append(','); json(se.elems.elementAt(i), b); }
        b.append(']');
        return;
      }
      b.append('[');
      Value[] e = ((TupleValue) t).elems;
      for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(e[i], b); }
      b.append(']');
    }
  }
  public static Value Emit(Value r) {
    StringBuilder b = new StringBuilder();
    json(r, b);
    synchronized (LBHost.class) {
      try {
        if (out == null) out = new PrintWriter(new BufferedWriter(new FileWriter(System.getProperty("lb.out"))), false);
      } catch (IOException e) { throw new RuntimeException(e); }
      out.println(b);
      out.flush();
    }
    return BoolValue.ValTrue;
  }
}
