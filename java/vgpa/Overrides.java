package vgpa;

import tlc2.overrides.ITLCOverrides;

/** Entry point named by -Dtlc2.overrides.TLCOverrides (see harness/tlc.py). */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { HPReal.class };
    }
}
