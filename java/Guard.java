import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/**
 * Conf!Attempt(x, d): x, or d where x cannot be evaluated.  An observation of a
 * form that the specification cannot even read (a field missing, an index out of
 * range) so violates the clause that reads it, and only that clause.
 */
public class Guard implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { Guard.class }; }

    static int told = 0;

    @Evaluation(definition = "Attempt", module = "Conf", warn = false, silent = true)
    public static Value attempt(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
                                final TLCState s1, final int control, final CostModel cm) {
        try {
            Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
            if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
                Value t = (Value) v.toTuple();
                if (t != null) v = t;
            }
            v.deepNormalize();
            return v;
        } catch (RuntimeException | StackOverflowError e) {
            synchronized (Guard.class) {
                if (told++ < 5) System.err.println("UNREADABLE " + String.valueOf(e.getMessage()).replace('\n', ' '));
            }
            return (Value) tool.eval(args[1], c, s0, s1, control, cm);
        }
    }
}
