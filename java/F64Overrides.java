// Evaluation of the operators that spec/F64.tla declares: IEEE-754 binary64
// arithmetic on TLA+ values.  A number is the TLA+ tuple <<hi, lo>> holding the
// two 32-bit halves of its bit pattern (TLC integers are 32 bit).  Nothing
// about the system under study lives here.
import java.io.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class F64Overrides implements ITLCOverrides {
  public Class<?>[] get() { return new Class<?>[] {F64Overrides.class}; }

  static Value enc(double d) {
    long b = Double.doubleToRawLongBits(d);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static double dec(Value v) {
    TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    return Double.longBitsToDouble((((long) ((IntValue) t.elems[0]).val) << 32)
        | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static final ConcurrentHashMap<String, Value> cache = new ConcurrentHashMap<>();

  @TLAPlusOperator(identifier = "F", module = "F64", warn = false)
  public static Value F(Value s) {
    return cache.computeIfAbsent(((StringValue) s).val.toString(), k -> enc(Double.parseDouble(k)));
  }
  @TLAPlusOperator(identifier = "FI", module = "F64", warn = false)
  public static Value fi(Value i) { return enc(((IntValue) i).val); }
  @TLAPlusOperator(identifier = "\\oplus", module = "F64", warn = false)
  public static Value add(Value a, Value b) { return enc(dec(a) + dec(b)); }
  @TLAPlusOperator(identifier = "\\ominus", module = "F64", warn = false)
  public static Value sub(Value a, Value b) { return enc(dec(a) - dec(b)); }
  @TLAPlusOperator(identifier = "\\otimes", module = "F64", warn = false)
  public static Value mul(Value a, Value b) { return enc(dec(a) * dec(b)); }
  @TLAPlusOperator(identifier = "\\oslash", module = "F64", warn = false)
  public static Value div(Value a, Value b) { return enc(dec(a) / dec(b)); }
  @TLAPlusOperator(identifier = "\\prec", module = "F64", warn = false)
  public static Value lt(Value a, Value b) { return bool(dec(a) < dec(b)); }
  @TLAPlusOperator(identifier = "\\preceq", module = "F64", warn = false)
  public static Value le(Value a, Value b) { return bool(dec(a) <= dec(b)); }
  @TLAPlusOperator(identifier = "\\succ", module = "F64", warn = false)
  public static Value gt(Value a, Value b) { return bool(dec(a) > dec(b)); }
  @TLAPlusOperator(identifier = "\\succeq", module = "F64", warn = false)
  public static Value ge(Value a, Value b) { return bool(dec(a) >= dec(b)); }
  @TLAPlusOperator(identifier = "FEq", module = "F64", warn = false)
  public static Value eq(Value a, Value b) { return bool(dec(a) == dec(b)); }
  @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
  public static Value neg(Value a) { return enc(-dec(a)); }
  @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
  public static Value abs(Value a) { return enc(Math.abs(dec(a))); }
  @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
  public static Value max(Value a, Value b) { return enc(Math.max(dec(a), dec(b))); }
  @TLAPlusOperator(identifier = "FMin", module = "F64", warn = false)
  public static Value min(Value a, Value b) { return enc(Math.min(dec(a), dec(b))); }
  @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
  public static Value sqrt(Value a) { return enc(Math.sqrt(dec(a))); }
  @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
  public static Value exp(Value a) { return enc(Math.exp(dec(a))); }
  @TLAPlusOperator(identifier = "FLn", module = "F64", warn = false)
  public static Value ln(Value a) { return enc(Math.log(dec(a))); }
  @TLAPlusOperator(identifier = "FPow", module = "F64", warn = false)
  public static Value pow(Value a, Value b) { return enc(Math.pow(dec(a), dec(b))); }
  @TLAPlusOperator(identifier = "FCos", module = "F64", warn = false)
  public static Value cos(Value a) { return enc(Math.cos(dec(a))); }
  @TLAPlusOperator(identifier = "FAtan", module = "F64", warn = false)
  public static Value atan(Value a) { return enc(Math.atan(dec(a))); }
  @TLAPlusOperator(identifier = "FFinite", module = "F64", warn = false)
  public static Value finite(Value a) { double d = dec(a); return bool(!Double.isNaN(d) && !Double.isInfinite(d)); }
  @TLAPlusOperator(identifier = "FNear", module = "F64", warn = false)
  public static Value near(Value a, Value b, Value rel, Value abs) {
    double x = dec(a), y = dec(b);
    if (x == y) return BoolValue.ValTrue;
    return bool(Math.abs(x - y) <= dec(abs) + dec(rel) * Math.max(Math.abs(x), Math.abs(y)));
  }
  @TLAPlusOperator(identifier = "FShow", module = "F64", warn = false)
  public static Value show(Value a) { return new StringValue(Double.toString(dec(a))); }

  // ---- reading recorded behaviours (a tagged binary form of TLA+ values) ----
  @TLAPlusOperator(identifier = "LoadValue", module = "F64", warn = false)
  public static Value load(Value file) throws IOException {
    try (DataInputStream in = new DataInputStream(new BufferedInputStream(
        new FileInputStream(((StringValue) file).val.toString()), 1 << 20))) {
      return read(in, new ArrayList<>(), new HashMap<>());
    }
  }
  static String str(DataInputStream in) throws IOException {
    byte[] b = new byte[in.readInt()];
    in.readFully(b);
    return new String(b, "UTF-8");
  }
  static Value read(DataInputStream in, List<UniqueString[]> shapes, Map<String, StringValue> strs)
      throws IOException {
    int t = in.readByte();
    switch (t) {
      case 'i': return IntValue.gen(in.readInt());
      case 'd': { int hi = in.readInt(), lo = in.readInt();
        return new TupleValue(new Value[] {IntValue.gen(hi), IntValue.gen(lo)}); }
      case 'T': return BoolValue.ValTrue;
      case 'N': return BoolValue.ValFalse;
      case 's': return strs.computeIfAbsent(str(in), StringValue::new);
      case 'l': { int n = in.readInt(); Value[] v = new Value[n];
        for (int i = 0; i < n; i++) v[i] = read(in, shapes, strs);
        return new TupleValue(v); }
      case 'S': { int n = in.readInt(); UniqueString[] f = new UniqueString[n];
        for (int i = 0; i < n; i++) f[i] = UniqueString.uniqueStringOf(str(in));
        shapes.add(f);
        return read(in, shapes, strs); }
      case 'r': { UniqueString[] f = shapes.get(in.readInt());
        Value[] v = new Value[f.length];
        for (int i = 0; i < f.length; i++) v[i] = read(in, shapes, strs);
        RecordValue r = new RecordValue(f.clone(), v, false);
        r.normalize();
        return r; }
      default: throw new IOException("bad tag " + t);
    }
  }
}
