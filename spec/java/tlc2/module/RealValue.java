package tlc2.module;

import java.io.IOException;
import tlc2.util.FP64;
import tlc2.value.*;
import tlc2.value.impl.*;

/** A TLC value that carries an IEEE-754 double.  Equality is numeric (NaN = NaN, -0 = 0). */
public class RealValue extends Value {
  public final double v;

  public RealValue(double v) { this.v = (v == 0.0) ? 0.0 : v; }

  @Override public byte getKind() { return REALVALUE; }
  @Override public int compareTo(Object o) {
    if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
    if (o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
    throw new RuntimeException("Attempted to compare a real with " + o);
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v) == 0;
    if (o instanceof IntValue) return v == ((IntValue) o).val;
    if (o instanceof StringValue || o instanceof ModelValue) return false;
    throw new RuntimeException("Attempted to compare a real with " + o);
  }
  @Override public boolean member(Value e) { throw new RuntimeException("membership in a real"); }
  @Override public boolean isFinite() { return true; }
  @Override public Value takeExcept(ValueExcept ex) {
    if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT inside a real");
    return ex.value;
  }
  @Override public Value takeExcept(ValueExcept[] exs) {
    Value res = this;
    for (ValueExcept e : exs) res = takeExcept(e);
    return res;
  }
  @Override public int size() { return 1; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isAtom() { return true; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("reals cannot be spilled to disk; run TLC with the in-memory queue");
  }
  @Override public long fingerPrint(long fp) {
    long b = Double.doubleToLongBits(v);
    return FP64.Extend(FP64.Extend(FP64.Extend(fp, (int) 77), (int) (b >>> 32)), (int) b);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(v); }
}
