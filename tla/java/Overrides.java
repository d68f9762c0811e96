package vforust;

import tlc2.overrides.ITLCOverrides;

public final class Overrides implements ITLCOverrides {
  @Override public Class[] get() { return new Class[] {Ops.class}; }
}
