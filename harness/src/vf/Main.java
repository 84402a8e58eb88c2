package vf;

import java.nio.file.Path;
import java.util.LinkedHashMap;
import java.util.Map;
import java.util.function.Supplier;

public final class Main {
    static final Map<String, Supplier<Check>> CHECKS = new LinkedHashMap<>();
    static {
        CHECKS.put("C01", Values.Logic::new);
        CHECKS.put("C02", Values.ShortCircuit::new);
        CHECKS.put("C03", Values.Numbers::new);
        CHECKS.put("C04", Values.Texts::new);
        CHECKS.put("C05", Values.Versions::new);
        CHECKS.put("C06", Values.Dates::new);
        CHECKS.put("C07", Values.Ranges::new);
        CHECKS.put("C08", Values.Member::new);
        CHECKS.put("C09", Values.Arrays_::new);
        CHECKS.put("C10", Values.Nulls::new);
        CHECKS.put("C11", Values.Fields::new);
        CHECKS.put("C12", Maths.Arithmetic::new);
        CHECKS.put("C13", Maths.Overflow::new);
        CHECKS.put("C14", Maths.Aggregates::new);
        CHECKS.put("C15", Maths.Scalars::new);
        CHECKS.put("C16", Syntax.Ast::new);
        CHECKS.put("C17", Syntax.Cached::new);
        CHECKS.put("C18", State.Retention::new);
        CHECKS.put("C19", State.Concurrent::new);
        CHECKS.put("C20", State.Purity::new);
        CHECKS.put("C21", State.Totality::new);
        CHECKS.put("C22", Syntax.Malformed::new);
        CHECKS.put("C23", Syntax.Lexical::new);
        CHECKS.put("C24", Maths.Types::new);
        CHECKS.put("C25", Maths.InConditions::new);
        CHECKS.put("C26", Laws.Interface::new);
        CHECKS.put("C27", Laws.Order::new);
        CHECKS.put("C28", Laws.Sources::new);
        CHECKS.put("C29", Laws.Classes::new);
        CHECKS.put("C30", Costs::new);
        CHECKS.put("C31", Frames.Causes::new);
        CHECKS.put("C32", Frames.Unmentioned::new);
        CHECKS.put("C33", Frames.Renaming::new);
        CHECKS.put("C34", Effects.Silent::new);
        CHECKS.put("C35", Effects.FirstUse::new);
        CHECKS.put("C36", Compose.Parts::new);
    }

    public static void main(String[] a) throws Exception {
        String id = a[0];
        Path root = Path.of(System.getProperty("vf.root", "."));
        Supplier<Check> s = CHECKS.get(id);
        if (s == null) { System.out.println("unknown property " + id); System.exit(2); }
        int rc = 2;
        try {
        if (a.length > 2 && a[1].equals("--replay")) rc = Runner.replay(id, s.get(), Path.of(a[2]), root);
        else {
            String seed = System.getenv("VERIF_SEED"), tier = System.getenv("VERIF_TIER");
            rc = new Runner(id, seed == null ? 1 : Long.parseLong(seed.trim()), "thorough".equals(tier)).run(s.get(), root);
        }
        } catch (Throwable t) { t.printStackTrace(System.out); }
        System.out.flush();
        Runtime.getRuntime().halt(rc);
    }
}
