import tlc2.overrides.ITLCOverrides;

/** Index of the operator overrides of this directory (see -Dtlc2.overrides.TLCOverrides). */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { NumOps.class }; }
}
