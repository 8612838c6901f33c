/* Java implementation of the operators declared in spec/Num.tla:
   exact-enough decimal arithmetic (50 digits), JSON input/output and a
   deterministic choice function.  Nothing here knows about the system. */
import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.tool.EvalException;
import tlc2.util.FP64;
import util.UniqueString;

public class Num {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);

  public static final class NumValue extends Value {
    final BigDecimal v;  // null if special
    final double s;      // NaN or +-Infinity
    NumValue(BigDecimal v) { this.v = v; this.s = 0; }
    NumValue(double d) {
      if (Double.isNaN(d) || Double.isInfinite(d)) { v = null; s = d; }
      else { v = new BigDecimal(d, MC); s = 0; }
    }
    public byte getKind() { return ValueConstants.USERVALUE; }
    public int compareTo(Object o) {
      if (o instanceof Value) {
        NumValue b = num((Value) o);
        if (v != null && b.v != null) return v.compareTo(b.v);
        return Double.compare(dbl(), b.dbl());
      }
      throw new RuntimeException("compare Num");
    }
    double dbl() { return v != null ? v.doubleValue() : s; }
    public boolean equals(Object o) {
      if (!(o instanceof NumValue) && !(o instanceof IntValue)) return false;
      return compareTo(o) == 0;
    }
    public boolean member(Value x) { throw new RuntimeException("member of Num"); }
    public boolean isFinite() { return true; }
    public Value takeExcept(ValueExcept e) {
      if (e.idx < e.path.length) throw new RuntimeException("except of Num");
      return (Value) e.value;
    }
    public Value takeExcept(ValueExcept[] e) {
      Value r = this;
      for (ValueExcept x : e) r = r == this ? takeExcept(x) : r.takeExcept(x);
      return r;
    }
    public int size() { return 1; }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean mutates() { return false; }
    String str() {
      if (v == null) return Double.isNaN(s) ? "NaN" : (s > 0 ? "Infinity" : "-Infinity");
      return v.signum() == 0 ? "0" : v.stripTrailingZeros().toString();
    }
    public void write(IValueOutputStream out) throws IOException {
      new StringValue(str()).write(out);
    }
    public long fingerPrint(long fp) { return FP64.Extend(fp, str()); }
    public IValue permute(IMVPerm p) { return this; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
      return sb.append(v == null ? str() : v.round(new MathContext(18)).toString());
    }
  }

  static NumValue parse(String t) {
    if (t.equals("NaN")) return new NumValue(Double.NaN);
    if (t.equals("Infinity")) return new NumValue(Double.POSITIVE_INFINITY);
    if (t.equals("-Infinity")) return new NumValue(Double.NEGATIVE_INFINITY);
    return new NumValue(new BigDecimal(t, MC));
  }

  static NumValue num(Value x) {
    if (x instanceof NumValue) return (NumValue) x;
    if (x instanceof IntValue) return new NumValue(new BigDecimal(((IntValue) x).val));
    if (x instanceof StringValue) {
      try { return parse(((StringValue) x).val.toString()); }
      catch (NumberFormatException e) { throw new RuntimeException("Attempted to use a non-number: " + x); }
    }
    throw new RuntimeException("Attempted to use a non-number: " + x);
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value N(Value a) { return num(a); }
  public static Value NAdd(Value x, Value y) {
    NumValue a = num(x), b = num(y);
    if (a.v == null || b.v == null) return new NumValue(a.dbl() + b.dbl());
    return new NumValue(a.v.add(b.v, MC));
  }
  public static Value NSub(Value x, Value y) {
    NumValue a = num(x), b = num(y);
    if (a.v == null || b.v == null) return new NumValue(a.dbl() - b.dbl());
    return new NumValue(a.v.subtract(b.v, MC));
  }
  public static Value NMul(Value x, Value y) {
    NumValue a = num(x), b = num(y);
    if (a.v == null || b.v == null) return new NumValue(a.dbl() * b.dbl());
    return new NumValue(a.v.multiply(b.v, MC));
  }
  public static Value NDiv(Value x, Value y) {
    NumValue a = num(x), b = num(y);
    if (a.v == null || b.v == null || b.v.signum() == 0) return new NumValue(a.dbl() / b.dbl());
    return new NumValue(a.v.divide(b.v, MC));
  }
  public static Value NNeg(Value x) {
    NumValue a = num(x);
    return a.v == null ? new NumValue(-a.s) : new NumValue(a.v.negate());
  }
  public static Value NAbs(Value x) {
    NumValue a = num(x);
    return a.v == null ? new NumValue(Math.abs(a.s)) : new NumValue(a.v.abs());
  }
  static boolean lt(NumValue a, NumValue b) {
    if (a.v != null && b.v != null) return a.v.compareTo(b.v) < 0;
    return a.dbl() < b.dbl();
  }
  static boolean le(NumValue a, NumValue b) {
    if (a.v != null && b.v != null) return a.v.compareTo(b.v) <= 0;
    return a.dbl() <= b.dbl();
  }
  public static Value NLt(Value x, Value y) { return bool(lt(num(x), num(y))); }
  public static Value NLe(Value x, Value y) { return bool(le(num(x), num(y))); }
  public static Value NEq(Value x, Value y) {
    NumValue a = num(x), b = num(y);
    return bool(le(a, b) && le(b, a));
  }
  public static Value NSame(Value x, Value y) {  // as NEq, but NaN is the same as NaN
    NumValue a = num(x), b = num(y);
    if (a.v == null && b.v == null) return bool(Double.compare(a.s, b.s) == 0);
    return bool(le(a, b) && le(b, a));
  }
  public static Value NIsNaN(Value x) {
    NumValue a = num(x);
    return bool(a.v == null && Double.isNaN(a.s));
  }
  public static Value NIsFin(Value x) {
    if (!(x instanceof NumValue) && !(x instanceof IntValue)) return bool(false);
    return bool(num(x).v != null);
  }
  public static Value NIsNum(Value x) { return bool(x instanceof NumValue || x instanceof IntValue); }
  public static Value NMax(Value x, Value y) { NumValue a = num(x), b = num(y); return lt(a, b) ? b : a; }
  public static Value NMin(Value x, Value y) { NumValue a = num(x), b = num(y); return lt(b, a) ? b : a; }
  public static Value NSqrt(Value x) {
    NumValue a = num(x);
    if (a.v == null || a.v.signum() < 0) return new NumValue(Math.sqrt(a.dbl()));
    return new NumValue(a.v.sqrt(new MathContext(40)));
  }
  public static Value NLn(Value x) { return new NumValue(Math.log(num(x).dbl())); }
  public static Value NExp(Value x) { return new NumValue(Math.exp(num(x).dbl())); }
  public static Value NSin(Value x) { return new NumValue(Math.sin(num(x).dbl())); }
  public static Value NPi() { return new NumValue(new BigDecimal("3.14159265358979323846264338327950288419716939937510")); }
  public static Value NFloor(Value x) {
    return IntValue.gen(num(x).v.setScale(0, RoundingMode.FLOOR).intValueExact());
  }
  public static Value NRound(Value x, Value d) {  // to d significant digits
    NumValue a = num(x);
    return a.v == null ? a : new NumValue(a.v.round(new MathContext(((IntValue) d).val)));
  }
  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Attempted to use a non-sequence: " + s);
    return ((TupleValue) t).elems;
  }
  public static Value NSum(Value s) {
    BigDecimal r = BigDecimal.ZERO; double d = 0; boolean sp = false;
    for (Value e : elems(s)) {
      NumValue a = num(e);
      if (a.v == null) { sp = true; d += a.s; } else { r = r.add(a.v, MC); }
    }
    return sp ? new NumValue(d) : new NumValue(r);
  }
  public static Value NMaxSeq(Value s) {  // largest element, NaN ignored; NaN if none
    NumValue m = new NumValue(Double.NaN);
    for (Value e : elems(s)) {
      NumValue a = num(e);
      if (a.v == null && Double.isNaN(a.s)) continue;
      if ((m.v == null && Double.isNaN(m.s)) || lt(m, a)) m = a;
    }
    return m;
  }
  public static Value NMinSeq(Value s) {
    NumValue m = new NumValue(Double.NaN);
    for (Value e : elems(s)) {
      NumValue a = num(e);
      if (a.v == null && Double.isNaN(a.s)) continue;
      if ((m.v == null && Double.isNaN(m.s)) || lt(a, m)) m = a;
    }
    return m;
  }
  public static Value NMaxAbs(Value s) {
    NumValue m = new NumValue(BigDecimal.ZERO);
    for (Value e : elems(s)) {
      NumValue a = num(NAbs(e));
      if (a.v == null && Double.isNaN(a.s)) continue;
      if (lt(m, a)) m = a;
    }
    return m;
  }
  static boolean close(NumValue a, NumValue b, NumValue t) {
    if (a.v == null || b.v == null) {
      if (a.v == null && b.v == null) return Double.compare(a.s, b.s) == 0;
      return false;
    }
    return le(num(NAbs(NSub(a, b))), t);
  }
  /* |a-b| <= tol, or both NaN / the same infinity */
  public static Value NClose(Value x, Value y, Value tol) {
    return bool(close(num(x), num(y), num(tol)));
  }
  /* |a-b| <= rel*max(|a|,|b|) + tiny */
  public static Value NRel(Value x, Value y, Value rel) {
    NumValue a = num(x), b = num(y);
    NumValue sc = num(NMax(NAbs(a), NAbs(b)));
    if (a.v == null || b.v == null) return bool(close(a, b, a));
    return bool(close(a, b, num(NMul(rel, sc))));
  }
  /* element-wise NClose of two sequences of the same length */
  public static Value NCloseSeq(Value x, Value y, Value tol) {
    Value[] a = elems(x), b = elems(y);
    if (a.length != b.length) return bool(false);
    NumValue t = num(tol);
    for (int i = 0; i < a.length; i++) if (!close(num(a[i]), num(b[i]), t)) return bool(false);
    return bool(true);
  }

  // ---------------------------------------------------------------- choice
  static long mix(long z) {
    z += 0x9E3779B97F4A7C15L;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }
  static long key(Value k) {
    if (k instanceof IntValue) return mix(((IntValue) k).val);
    if (k instanceof BoolValue) return mix(((BoolValue) k).val ? 1001 : 1002);
    if (k instanceof NumValue) return key(new StringValue(((NumValue) k).str()));
    if (k instanceof StringValue) {
      long h = 7;
      for (char c : ((StringValue) k).val.toString().toCharArray()) h = mix(h * 31 + c);
      return h;
    }
    Value t = k.toTuple();
    if (t == null) throw new RuntimeException("Rnd key: " + k);
    long h = 11;
    for (Value e : ((TupleValue) t).elems) h = mix(h * 31 + key(e));
    return h;
  }
  /* a number in 0..n-1 that depends only on key */
  public static Value Rnd(Value k, Value n) {
    return IntValue.gen((int) Math.floorMod(key(k), (long) ((IntValue) n).val));
  }
  public static Value Pick(Value k, Value s) {
    Value[] e = elems(s);
    return e[(int) Math.floorMod(key(k), (long) e.length)];
  }

  // ------------------------------------------------------------------ JSON
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    RuntimeException err(String m) { return new RuntimeException("JSON: " + m + " at " + i); }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++; ws();
        List<UniqueString> ks = new ArrayList<>(); List<Value> vs = new ArrayList<>();
        if (s.charAt(i) == '}') { i++; return RecordValue.EmptyRcd; }
        while (true) {
          ws(); String k = str(); ws();
          if (s.charAt(i++) != ':') throw err(":");
          ks.add(UniqueString.uniqueStringOf(k)); vs.add(val()); ws();
          char d = s.charAt(i++);
          if (d == '}') break;
          if (d != ',') throw err(",");
        }
        Value r = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
        r.normalize();
        return r;
      }
      if (c == '[') {
        i++; ws();
        if (s.charAt(i) == ']') { i++; return TupleValue.EmptyTuple; }
        List<Value> vs = new ArrayList<>();
        while (true) {
          vs.add(val()); ws();
          char d = s.charAt(i++);
          if (d == ']') break;
          if (d != ',') throw err(",");
        }
        return new TupleValue(vs.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      int j = i;
      while (i < s.length() && ",]} \n\t\r".indexOf(s.charAt(i)) < 0) i++;
      String t = s.substring(j, i);
      if (t.equals("true")) return BoolValue.ValTrue;
      if (t.equals("false")) return BoolValue.ValFalse;
      if (t.equals("null")) return new StringValue("None");
      if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0 && t.indexOf('N') < 0 && t.indexOf('I') < 0) {
        if (t.length() < 10) return IntValue.gen(Integer.parseInt(t));
      }
      return parse(t);
    }
    String str() {
      if (s.charAt(i) != '"') throw err("string");
      i++;
      StringBuilder b = new StringBuilder();
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return b.toString();
        if (c == '\\') {
          c = s.charAt(i++);
          switch (c) {
            case 'n': b.append('\n'); break;
            case 't': b.append('\t'); break;
            case 'r': b.append('\r'); break;
            case 'b': b.append('\b'); break;
            case 'f': b.append('\f'); break;
            case 'u': b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
            default: b.append(c);
          }
        } else b.append(c);
      }
    }
  }
  static final Map<String, Value> CACHE = new HashMap<>();
  /* a sequence with one value per line of a file */
  public static synchronized Value LoadLines(Value f) {
    String name = ((StringValue) f).val.toString();
    Value r = CACHE.get(name);
    if (r != null) return r;
    List<Value> vs = new ArrayList<>();
    try (BufferedReader rd = new BufferedReader(new InputStreamReader(new FileInputStream(name), StandardCharsets.UTF_8))) {
      String line;
      while ((line = rd.readLine()) != null) if (!line.isBlank()) vs.add(new P(line).val());
    } catch (IOException e) { throw new RuntimeException("cannot read " + name, e); }
    r = new TupleValue(vs.toArray(new Value[0]));
    CACHE.put(name, r);
    return r;
  }
  static void quote(StringBuilder b, String s) {
    b.append('"');
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < ' ') b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    b.append('"');
  }
  static void json(StringBuilder b, Value v) {
    if (v instanceof NumValue) { b.append(((NumValue) v).str()); return; }
    if (v instanceof IntValue) { b.append(((IntValue) v).val); return; }
    if (v instanceof BoolValue) { b.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("None")) b.append("null"); else quote(b, s);
      return;
    }
    if (v instanceof RecordValue || v.toTuple() == null) {
      Value r0 = v instanceof RecordValue ? v : v.toRcd();
      if (r0 != null) {
        RecordValue r = (RecordValue) r0;
        b.append('{');
        for (int i = 0; i < r.names.length; i++) {
          if (i > 0) b.append(',');
          quote(b, r.names[i].toString()); b.append(':'); json(b, r.values[i]);
        }
        b.append('}');
        return;
      }
      if (v instanceof SetEnumValue) {
        Value[] e = ((SetEnumValue) v.normalize()).elems.toArray();
        b.append('[');
        for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(b, e[i]); }
        b.append(']');
        return;
      }
      throw new RuntimeException("no JSON for " + v);
    }
    Value[] e = elems(v);
    b.append('[');
    for (int i = 0; i < e.length; i++) { if (i > 0) b.append(','); json(b, e[i]); }
    b.append(']');
  }
  /* appends v as one line of JSON to a file; TRUE */
  public static synchronized Value DumpLine(Value f, Value v) {
    StringBuilder b = new StringBuilder();
    json(b, v);
    b.append('\n');
    try {
      Files.write(Paths.get(((StringValue) f).val.toString()), b.toString().getBytes(StandardCharsets.UTF_8),
          StandardOpenOption.CREATE, StandardOpenOption.APPEND);
    } catch (IOException e) { throw new RuntimeException(e); }
    return BoolValue.ValTrue;
  }
  public static Value Env(Value f) {
    String s = System.getenv(((StringValue) f).val.toString());
    return new StringValue(s == null ? "" : s);
  }
  public static Value EnvInt(Value f, Value d) {
    String s = System.getenv(((StringValue) f).val.toString());
    return s == null || s.isEmpty() ? d : IntValue.gen(Integer.parseInt(s.trim()));
  }
  public static Value ToStr(Value v) {
    StringBuilder b = new StringBuilder(); json(b, v); return new StringValue(b.toString());
  }
  public static Value Cat(Value s) {
    StringBuilder b = new StringBuilder();
    for (Value e : elems(s)) {
      if (e instanceof StringValue) b.append(((StringValue) e).val.toString()); else json(b, e);
    }
    return new StringValue(b.toString());
  }
  public static Value Lower(Value s) { return new StringValue(((StringValue) s).val.toString().toLowerCase(Locale.ROOT)); }
  public static Value IsStr(Value s) { return bool(s instanceof StringValue); }
  public static Value IsInt(Value s) { return bool(s instanceof IntValue); }
  public static Value IsBool(Value s) { return bool(s instanceof BoolValue); }
  public static Value IsSeq(Value s) { return bool(!(s instanceof NumValue) && s.toTuple() != null); }
  public static Value Has(Value r, Value k) {
    if (r instanceof FcnRcdValue) r = r.toRcd();
    if (!(r instanceof RecordValue)) return bool(false);
    String n = ((StringValue) k).val.toString();
    for (UniqueString u : ((RecordValue) r).names) if (u.toString().equals(n)) return bool(true);
    return bool(false);
  }
  /* d.m.Y of the day that lies n days after y-m-d */
  public static Value DatePlus(Value y, Value m, Value d, Value n) {
    java.time.LocalDate x = java.time.LocalDate.of(((IntValue) y).val, ((IntValue) m).val, ((IntValue) d).val)
        .plusDays(((IntValue) n).val);
    return new StringValue(x.format(java.time.format.DateTimeFormatter.ofPattern("dd.MM.yyyy")));
  }
}
