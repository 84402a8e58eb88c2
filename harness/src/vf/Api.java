package vf;

import java.util.Map;

/** The library as seen across class loaders (this interface is shared by all of them). */
public interface Api {
    Object parser(int capacity);          // below 0: a plain parser
    Object evaluators(Object parser);
    Object foreign(String text);         // evaluators over a parser of somebody else's, which returns a tree made by hand
    String parse(Object parser, String text, String def);
    String bool(Object evaluators, String text, Map<String, Object> data, String def);
    String arith(Object evaluators, String text, Map<String, Object> data);
}
