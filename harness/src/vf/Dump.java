package vf;

import com.github.sidhant92.boolparser.constant.*;
import com.github.sidhant92.boolparser.domain.*;
import com.github.sidhant92.boolparser.domain.arithmetic.*;
import com.github.sidhant92.boolparser.domain.logical.*;
import java.math.BigDecimal;
import java.time.*;
import java.util.List;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Structural dumps: of the nodes a parser returned (through their public getters), and of a reference tree. */
final class Dump {
    static String node(Node n) { StringBuilder b = new StringBuilder(); node(n, b); return b.toString(); }

    private static void value(DataType t, Object v, StringBuilder b) {
        b.append(t).append(':');
        if (v instanceof BigDecimal) b.append(((BigDecimal) v).stripTrailingZeros().toPlainString());
        else if (v instanceof LocalDateTime) b.append(((LocalDateTime) v).toLocalDate()).append(' ').append(String.format(java.util.Locale.ROOT, "%02d:%02d:%02d", ((LocalDateTime) v).getHour(), ((LocalDateTime) v).getMinute(), ((LocalDateTime) v).getSecond()));
        else if (v instanceof String) esc((String) v, b);
        else b.append(v);
        String cls = v == null ? "null" : v.getClass().getSimpleName();
        b.append('/').append(cls);
    }
    private static void esc(String s, StringBuilder b) { b.append('`'); for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); if (c < 32 || c > 126) b.append(String.format(java.util.Locale.ROOT, "\\u%04x", (int) c)); else b.append(c); } b.append('`'); }

    private static void items(List<Node> l, StringBuilder b) { b.append('['); for (int i = 0; i < l.size(); i++) { if (i > 0) b.append(", "); node(l.get(i), b); } b.append(']'); }

    static void node(Node n, StringBuilder b) {
        if (n == null) { b.append("null"); return; }
        switch (n.getTokenType()) {
            case COMPARISON: {
                ComparisonNode c = (ComparisonNode) n;
                b.append("Cmp{").append(c.getOperator()).append(' '); node(c.getLeft(), b); b.append(' '); node(c.getRight(), b);
                if (c.getRight() instanceof UnaryNode) b.append(" type=").append(c.getDataType());
                b.append('}'); break;
            }
            case NUMERIC_RANGE: {
                NumericRangeNode c = (NumericRangeNode) n;
                b.append("Range{").append(c.getField()).append(' '); value(c.getFromDataType(), c.getFromValue(), b); b.append(' '); value(c.getToDataType(), c.getToValue(), b); b.append('}'); break;
            }
            case IN: { InNode c = (InNode) n; b.append("In{").append(c.getField()).append(' '); items(c.getItems(), b); b.append('}'); break; }
            case ARRAY: { ArrayNode c = (ArrayNode) n; b.append("Array{").append(c.getOperator()).append(' ').append(c.getField()).append(' '); items(c.getItems(), b); b.append('}'); break; }
            case UNARY: { UnaryNode c = (UnaryNode) n; b.append("Unary{"); value(c.getDataType(), c.getValue(), b); b.append('}'); break; }
            case FIELD: { FieldNode c = (FieldNode) n; b.append("Field{").append(c.getField()).append('}'); break; }
            case BOOLEAN: {
                BooleanNode c = (BooleanNode) n;
                b.append("Bool{").append(c.getOperator()).append(' '); node(c.getLeft(), b);
                if (c.getOperator() != LogicalOperationType.NOT || c.getRight() != null) { b.append(' '); node(c.getRight(), b); }
                b.append('}'); break;
            }
            case ARITHMETIC: {
                ArithmeticNode c = (ArithmeticNode) n;
                b.append("Arith{").append(c.getOperator()).append(' '); node(c.getLeft(), b);
                if (c.getOperator() != Operator.UNARY || c.getRight() != null) { b.append(' '); node(c.getRight(), b); }
                b.append('}'); break;
            }
            case ARITHMETIC_FUNCTION: { ArithmeticFunctionNode c = (ArithmeticFunctionNode) n; b.append("Fun{").append(c.getFunctionType()).append(' '); items(c.getItems(), b); b.append('}'); break; }
            default: b.append("?").append(n.getTokenType());
        }
    }

    static String opName(String s) {
        switch (s) {
            case "=": return "EQUALS"; case "!=": return "NOT_EQUAL"; case ">": return "GREATER_THAN"; case ">=": return "GREATER_THAN_EQUAL";
            case "<": return "LESS_THAN"; case "<=": return "LESS_THAN_EQUAL"; case "+": return "ADD"; case "-": return "SUBTRACT";
            case "*": return "MULTIPLY"; case "/": return "DIVIDE"; case "%": return "MODULUS"; case "^": return "EXPONENT"; default: throw new IllegalArgumentException(s);
        }
    }

    static String x(X x, String def) { StringBuilder b = new StringBuilder(); x(x, def, b); return b.toString(); }
    private static void xs(List<X> l, String def, StringBuilder b) { b.append('['); for (int i = 0; i < l.size(); i++) { if (i > 0) b.append(", "); x(l.get(i), def, b); } b.append(']'); }

    static DataType litType(X x) {
        switch (x.k) {
            case INT: return Long.parseLong(x.s) <= Integer.MAX_VALUE ? DataType.INTEGER : DataType.LONG;
            case DEC: return DataType.DECIMAL;
            case VER: return DataType.VERSION;
            case BOOL: return DataType.BOOLEAN;
            case DATE: return DataType.DATE;
            case DT: return DataType.DATETIME;
            default: return DataType.STRING;
        }
    }
    static Object litValue(X x) {
        switch (x.k) {
            case INT: { long v = Long.parseLong(x.s); if (v <= Integer.MAX_VALUE) return (int) v; return v; }
            case DEC: return new BigDecimal(x.s);
            case VER: return new ComparableVersion(x.s);
            case BOOL: return x.s.equalsIgnoreCase("true");
            case DATE: return LocalDate.parse(x.s);
            case DT: return LocalDateTime.parse(x.s.replace(' ', 'T'));
            default: return x.s;
        }
    }

    private static void x(X x, String def, StringBuilder b) {
        switch (x.k) {
            case CMP:
                b.append("Cmp{").append(opName(x.s)).append(' '); x(x.c.get(0), def, b); b.append(' '); x(x.c.get(1), def, b);
                if (x.c.get(1).isLit()) b.append(" type=").append(litType(x.c.get(1)));
                b.append('}'); break;
            case RANGE: b.append("Range{").append(x.s).append(' '); value(litType(x.c.get(0)), litValue(x.c.get(0)), b); b.append(' '); value(litType(x.c.get(1)), litValue(x.c.get(1)), b); b.append('}'); break;
            case IN: if (x.neg) b.append("Bool{NOT "); b.append("In{").append(x.s).append(' '); xs(x.c, def, b); b.append('}'); if (x.neg) b.append('}'); break;
            case ARR: b.append("Array{").append(x.neg ? "CONTAINS_ALL" : "CONTAINS_ANY").append(' ').append(x.s).append(' '); xs(x.c, def, b); b.append('}'); break;
            case FLD: b.append("Field{").append(x.s == null ? def : x.s).append('}'); break;
            case AND: case OR: b.append("Bool{").append(x.k).append(' '); x(x.c.get(0), def, b); b.append(' '); x(x.c.get(1), def, b); b.append('}'); break;
            case NOT: {
                b.append("Bool{NOT "); X o = x.c.get(0);
                if (o.k == X.K.FLD) x(X.str(o.s == null ? def : o.s), def, b); else x(o, def, b);
                b.append('}'); break;
            }
            case NEG: b.append("Arith{UNARY "); x(x.c.get(0), def, b); b.append('}'); break;
            case ARI: b.append("Arith{").append(opName(x.s)).append(' '); x(x.c.get(0), def, b); b.append(' '); x(x.c.get(1), def, b); b.append('}'); break;
            case FUN: b.append("Fun{").append(x.s).append(' '); xs(x.c, def, b); b.append('}'); break;
            default: b.append("Unary{"); value(litType(x), litValue(x), b); b.append('}');
        }
    }
}
