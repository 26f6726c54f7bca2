// Operators of spec/Flt.tla that decide themselves whether to evaluate an argument.
import tlc2.value.impl.*;

public class FltMemo implements tlc2.overrides.ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { FltMemo.class }; }

    // ---- Memo(k, v) is v; the value is computed once for each k (v must depend on k only)
    static final java.util.concurrent.ConcurrentHashMap<String, Value> memo = new java.util.concurrent.ConcurrentHashMap<>();
    @tlc2.overrides.Evaluation(definition = "Memo", module = "Flt", warn = false, silent = true)
    public static Value Memo(tlc2.tool.impl.Tool tool, tla2sany.semantic.ExprOrOpArgNode[] args, tlc2.util.Context c,
                             tlc2.tool.TLCState s0, tlc2.tool.TLCState s1, int control, tlc2.tool.coverage.CostModel cm) {
        String k = Flt.s((Value) tool.eval(args[0], c, s0, s1, control, cm));
        Value v = memo.get(k);
        if (v == null) {
            v = (Value) tool.eval(args[1], c, s0, s1, control, cm);
            v = Flt.force(v);            // evaluates every part of it
            v.deepNormalize();
            memo.put(k, v);
        }
        return v;
    }
}
