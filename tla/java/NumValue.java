package vforust;

import tlc2.tool.EvalException;
import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An IEEE-754 binary64 number as a TLC value.  NaN is one value, -0.0 is 0.0. */
public final class NumValue extends Value {
  private static final long serialVersionUID = 1L;
  public final double d;

  private NumValue(double d) { this.d = d; }

  public static NumValue of(double d) {
    if (d == 0.0) d = 0.0;
    if (Double.isNaN(d)) d = Double.NaN;
    return new NumValue(d);
  }

  @Override public byte getKind() { return USERVALUE; }

  @Override public int compareTo(Object o) {
    if (o instanceof NumValue) return Double.compare(d, ((NumValue) o).d);
    throw new EvalException(2154, new String[] {"Num " + d + " compared with " + o});
  }

  @Override public boolean equals(Object o) {
    if (o instanceof NumValue) return Double.compare(d, ((NumValue) o).d) == 0;
    throw new EvalException(2154, new String[] {"Num " + d + " equated with " + o});
  }

  @Override public boolean member(Value v) { throw new RuntimeException("Num is not a set"); }
  @Override public boolean isFinite() { throw new RuntimeException("Num is not a set"); }
  @Override public Value takeExcept(ValueExcept e) {
    if (e.idx < e.path.length) throw new RuntimeException("EXCEPT applied to a Num");
    return e.value;
  }
  @Override public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("EXCEPT on a Num"); }
  @Override public int size() { throw new RuntimeException("size of a Num"); }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  public boolean assignable(Value v) { return v instanceof NumValue; }
  @Override public boolean isAtom() { return true; }
  @Override public long fingerPrint(long fp) {
    fp = FP64.Extend(fp, USERVALUE);
    return FP64.Extend(fp, Double.doubleToLongBits(d));
  }
  @Override public IValue permute(tlc2.value.IMVPerm p) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
    return sb.append("~").append(d);
  }
}
