From 891b129759ddf36502cd8a36baff3ff8ae1a03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:19 +0000
Subject: [PATCH 01/29] fix: build every operand from its own sub-expression

Operands of comparisons, arithmetic, NOT, AND/OR and word lists were guessed
from whatever happened to be on top of the listener stack, and word list items
were mapped a second time, so nested expressions were attached to the wrong
operator (e.g. 'b = 2 AND a > max(1, min(2,3))', 'min(a + b + 1, 5)').
---
 .../parser/antlr/BooleanFilterListener.java   | 109 ++++++------------
 1 file changed, 37 insertions(+), 72 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..8c87e7f 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -1,9 +1,10 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import java.util.ArrayList;
+import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
-import java.util.stream.Collectors;
 import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
@@ -62,8 +63,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
+        final Node leafNode = resolveOperand(ctx.exp);
         currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
         super.enterUnaryArithmeticExpression(ctx);
     }
@@ -98,31 +98,30 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private List<Node> getArrayElements(final List<ParseTree> trees) {
-        return trees
-                .stream()
-                .filter(child -> !(child instanceof TerminalNodeImpl))
-                .map(this::mapContextToNode)
-                .collect(Collectors.toList());
+        final LinkedList<Node> items = new LinkedList<>();
+        for (int i = trees.size() - 1; i >= 0; i--) {
+            if (!(trees.get(i) instanceof TerminalNodeImpl)) {
+                items.addFirst(resolveOperand(trees.get(i)));
+            }
+        }
+        return new ArrayList<>(items);
     }
 
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
+    /**
+     * Returns the node of an operand. Every expression other than a plain value has pushed exactly one node on the stack by the time the
+     * expression containing it is exited, so multiple operands need to be resolved from right to left.
+     */
+    private Node resolveOperand(final ParseTree ctx) {
+        if (ctx instanceof BooleanExpressionParser.ParentExpressionContext) {
+            return resolveOperand(((BooleanExpressionParser.ParentExpressionContext) ctx).expression());
+        }
+        if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
             return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
-            throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
         }
+        if (ctx == null || currentNodes.isEmpty()) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx == null ? "" : ctx.getText()));
+        }
+        return currentNodes.pop();
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
@@ -156,45 +155,18 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
 
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        final Node right = resolveOperand(ctx.right);
+        final Node left = resolveOperand(ctx.left);
+        final boolean useLeftDataType = !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) && ctx.left instanceof BooleanExpressionParser.TypesExpressionContext;
+        final DataType dataType = getDataType(useLeftDataType ? ctx.left.getStart() : ctx.right.getStart());
+        return new ComparisonNode(left, right, operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        final Node right = resolveOperand(ctx.right);
+        final Node left = resolveOperand(ctx.left);
+        return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
@@ -277,15 +249,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
+        Node operand = resolveOperand(ctx.expression());
+        if (operand instanceof FieldNode) {
+            operand = new UnaryNode(DataType.STRING, ((FieldNode) operand).getField());
         }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
+        final BooleanNode booleanToken = new BooleanNode(operand, null, LogicalOperationType.NOT);
         currentNodes.add(booleanToken);
         super.exitNotExpression(ctx);
     }
@@ -298,11 +266,8 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
+        final Node firstNode = resolveOperand(ctx.right);
+        final Node secondNode = resolveOperand(ctx.left);
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
         final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
         currentNodes.add(booleanToken);
-- 
2.43.0


From f7dc7ddbf41e9da2c4092907fb2dc99fd2fc4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 02/29] fix: null checks look at the presence of the operand
 only

'null = a' was always true, and a field holding the string "null" counted as null.
---
 .../application/BooleanExpressionEvaluator.java       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..d5135cf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -89,11 +89,14 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            final boolean nullOnLeft = comparisonToken.getLeft() instanceof FieldNode && ((FieldNode) comparisonToken.getLeft()).isNull();
+            final boolean isNull = !getValue(nullOnLeft ? comparisonToken.getRight() : comparisonToken.getLeft(), data).isPresent();
+            return comparisonToken.getOperator().equals(Operator.EQUALS) == isNull;
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From 3540b744564ce9a6f21076b9dbe4edc70bc2d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 03/29] fix: report a missing right hand field as data not
 found

---
 .../boolparser/application/BooleanExpressionEvaluator.java     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index d5135cf..1334dc9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -96,7 +96,8 @@ public class BooleanExpressionEvaluator {
         }
         final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).orElseThrow(
+                () -> new DataNotFoundException(((FieldNode) comparisonToken.getRight()).getField()));
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From 47b8cd75fccff59da74f390f2d93e06982b81e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 04/29] fix: key the parser cache on expression and default
 field separately

'a = 1' with default field 'b_c' and 'a = 1_b' with default field 'c' shared one entry.
---
 .../boolparser/parser/antlr/CachedBoolParser.java          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..bf5be65 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import java.util.Arrays;
+import java.util.List;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +9,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<List<String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +27,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final List<String> cacheKey = Arrays.asList(expression, defaultField);
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 41d9fc34c473a936f26b411ede5452f8bd68e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 05/29] fix: negate Float and Double fields

Every DECIMAL operand was cast to BigDecimal, so '-a' failed with a ClassCastException.
---
 .../boolparser/operator/arithmetic/UnaryOperator.java       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..5de9644 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,13 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 
 /**
  * @author sidhant.aggarwal
@@ -17,7 +18,8 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
             return -(long) leftOperand;
-- 
2.43.0


From 2b2a4355e5247c842d7cb2439e845b026518af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 06/29] fix: do not wrap around on integer overflow

Results outside the int range are promoted to long as additions already were,
results outside the long range fail instead of silently wrapping.
---
 .../boolparser/function/arithmetic/IntFunction.java        | 7 +++++--
 .../boolparser/function/arithmetic/SumFunction.java        | 2 +-
 .../boolparser/operator/arithmetic/AddOperator.java        | 2 +-
 .../boolparser/operator/arithmetic/MultiplyOperator.java   | 2 +-
 .../boolparser/operator/arithmetic/SubtractOperator.java   | 5 +++--
 .../boolparser/operator/arithmetic/UnaryOperator.java      | 5 +++--
 6 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..c49d885 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,11 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            final BigDecimal value = (BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get();
+            return ValueUtils.castDecimal(value.scale() > 0 ? value.setScale(0, RoundingMode.DOWN) : value);
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..afbacc1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,7 +36,7 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
         return ValueUtils.castDecimal(sum);
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4e729b2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,7 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..e71dfb5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -10,6 +10,7 @@ import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -25,10 +26,10 @@ public class SubtractOperator extends AbstractOperator {
         }
         if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
+            return Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        return ValueUtils.castLong((long) integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 5de9644..5db26d9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -8,6 +8,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -22,9 +23,9 @@ public class UnaryOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
+            return Math.negateExact((long) leftOperand);
         }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(-(long) (int) leftOperand);
     }
 
     @Override
-- 
2.43.0


From f5f82cad181e73aed5222311650c01bdec2ab495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 07/29] fix: keep integral results outside the int and double
 range exact

Integral decimals outside the int range made the evaluation fail, and
MIN/MAX/SUM/^ of longs went through double.
---
 .../boolparser/function/arithmetic/MaxFunction.java   |  4 ++--
 .../boolparser/function/arithmetic/MinFunction.java   |  4 ++--
 .../boolparser/function/arithmetic/SumFunction.java   |  2 +-
 .../operator/arithmetic/ExponentOperator.java         | 11 ++++++++++-
 .../github/sidhant92/boolparser/util/ValueUtils.java  |  6 +++++-
 5 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index afbacc1..059611e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -37,7 +37,7 @@ public class SumFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
                 .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
-        return ValueUtils.castDecimal(sum);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
index b4c5239..1272893 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
+import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -16,6 +17,8 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
  * @since 15/03/2024
  */
 public class ExponentOperator extends AbstractOperator {
+    private static final double MAX_EXACT_DOUBLE = 1L << 53;
+
     @Override
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
@@ -25,7 +28,13 @@ public class ExponentOperator extends AbstractOperator {
                     Math.pow(decimalDataType.getValue(leftOperand).get().doubleValue(), decimalDataType.getValue(rightOperand).get().doubleValue()));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castDecimal(Math.pow(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
+        final long base = longDataType.getValue(leftOperand).get();
+        final long exponent = longDataType.getValue(rightOperand).get();
+        final double result = Math.pow(base, exponent);
+        if (Math.abs(result) >= MAX_EXACT_DOUBLE && Math.abs(result) <= Long.MAX_VALUE) {
+            return ValueUtils.castDecimal(BigDecimal.valueOf(base).pow((int) exponent));
+        }
+        return ValueUtils.castDecimal(result);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..4f3f8d3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,11 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            try {
+                return castLong(value.longValueExact());
+            } catch (ArithmeticException ex) {
+                return value;
+            }
         }
         return value;
     }
-- 
2.43.0


From c0fdcd51581f2a34ea58df9a4a0d80a4a958b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 08/29] fix: average of integers with a non terminating
 quotient

'avg(1, 1, 2)' failed with 'Rounding necessary'; truncate to three decimals as for decimals.
---
 .../boolparser/function/arithmetic/AvgFunction.java         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..5a847e4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -36,9 +36,9 @@ public class AvgFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        final BigDecimal sum = items
+                .stream().map(a -> BigDecimal.valueOf(longDataType.getValue(a.getValue()).get())).reduce(BigDecimal.ZERO, BigDecimal::add);
+        return ValueUtils.castDecimal(sum.divide(new BigDecimal(items.size()), 3, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From c04415bcd114afeb7e3becc51c2736bbdca014de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 09/29] fix: functions over a list with a single or no element

min/max/sum/avg/mean/median/mode rejected a list holding one element, len of such
a list of strings returned the length of the string and len of an empty list failed.
---
 .../application/ArithmeticExpressionEvaluator.java           | 5 +++++
 .../boolparser/function/FunctionEvaluatorService.java        | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..7eb885c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -1,11 +1,13 @@
 package com.github.sidhant92.boolparser.application;
 
+import java.util.Collection;
 import java.util.List;
 import java.util.Map;
 import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -79,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .stream()
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
+        if (arithmeticFunctionNode.getFunctionType().equals(FunctionType.LEN) && resolvedValues.size() == 1 && resolvedValues.get(0) instanceof Collection) {
+            return ((Collection<?>) resolvedValues.get(0)).size();
+        }
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/FunctionEvaluatorService.java b/src/main/java/com/github/sidhant92/boolparser/function/FunctionEvaluatorService.java
index 83d10e2..7a0d8b9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/FunctionEvaluatorService.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/FunctionEvaluatorService.java
@@ -25,10 +25,9 @@ public class FunctionEvaluatorService {
         if (items.isEmpty()) {
             throw new InvalidExpressionException("Empty items not allowed");
         }
-        final ContainerDataType containerDataType = items.size() > 1 ? ContainerDataType.LIST : ContainerDataType.PRIMITIVE;
-        if (!abstractFunction.getAllowedContainerTypes().contains(containerDataType)) {
+        if (items.size() > 1 && !abstractFunction.getAllowedContainerTypes().contains(ContainerDataType.LIST)) {
             throw new InvalidContainerTypeException(
-                    String.format("Invalid container type %s for function %s", containerDataType, functionType.name()));
+                    String.format("Invalid container type %s for function %s", ContainerDataType.LIST, functionType.name()));
         }
         final boolean validDataType = items
                 .stream().allMatch(item -> abstractFunction.getAllowedDataTypes().contains(item.getDataType()));
-- 
2.43.0


From d694f895dbe2c2b9c727e96ec69b7710d80400d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 10/29] fix: contains_any/contains_all on any collection,
 comparing numbers by value

Sets and arrays passed the validation and then failed with a ClassCastException,
a null element failed the evaluation, and numbers were compared textually (2.50 vs 2.5).
---
 .../comparison/ContainsAllOperator.java       |  9 ++----
 .../comparison/ContainsAnyOperator.java       |  9 ++----
 .../operator/comparison/ListOperator.java     | 32 +++++++++++++++++++
 3 files changed, 36 insertions(+), 14 deletions(-)
 create mode 100644 src/main/java/com/github/sidhant92/boolparser/operator/comparison/ListOperator.java

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..ecbda04 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.operator.comparison;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
-import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -11,7 +10,7 @@ import com.github.sidhant92.boolparser.constant.Operator;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
-public class ContainsAllOperator extends AbstractOperator {
+public class ContainsAllOperator extends AbstractOperator implements ListOperator {
     private final InOperator inOperator;
 
     @Override
@@ -20,13 +19,9 @@ public class ContainsAllOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
-                .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       getElements(leftOperand, rightOperand.getRight())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..6fa266c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.operator.comparison;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
-import java.util.stream.Collectors;
 import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -11,7 +10,7 @@ import com.github.sidhant92.boolparser.constant.Operator;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
-public class ContainsAnyOperator extends AbstractOperator {
+public class ContainsAnyOperator extends AbstractOperator implements ListOperator {
     private final InOperator inOperator;
 
     @Override
@@ -20,13 +19,9 @@ public class ContainsAnyOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
-                .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       getElements(leftOperand, rightOperand.getRight())));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ListOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ListOperator.java
new file mode 100644
index 0000000..43e12e1
--- /dev/null
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ListOperator.java
@@ -0,0 +1,32 @@
+package com.github.sidhant92.boolparser.operator.comparison;
+
+import java.util.Arrays;
+import java.util.Collection;
+import java.util.List;
+import java.util.Objects;
+import java.util.stream.Collectors;
+import org.apache.commons.lang3.tuple.Pair;
+import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
+
+public interface ListOperator {
+    /**
+     * The elements of a collection or array along with the data type used to compare each of them with an operand of the given data type.
+     */
+    default List<Pair<Object, DataType>> getElements(final Object container, final DataType operandDataType) {
+        final Collection<?> elements = container instanceof Object[] ? Arrays.asList((Object[]) container) : (Collection<?>) container;
+        return elements
+                .stream()
+                .filter(Objects::nonNull)
+                .map(element -> Pair.<Object, DataType>of(element, getElementDataType(ValueUtils.getDataType(element), operandDataType)))
+                .collect(Collectors.toList());
+    }
+
+    default DataType getElementDataType(final DataType elementDataType, final DataType operandDataType) {
+        final List<DataType> numbers = Arrays.asList(DataType.INTEGER, DataType.LONG, DataType.DECIMAL);
+        if (elementDataType.equals(operandDataType) || numbers.contains(elementDataType) && numbers.contains(operandDataType)) {
+            return elementDataType;
+        }
+        return DataType.STRING;
+    }
+}
-- 
2.43.0


From 6e238144fd37701ef09d4112571b4b143f42a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 11/29] fix: do not accept dates which do not exist

'2023-02-30' was silently turned into 2023-02-28.
---
 .../github/sidhant92/boolparser/datatype/DateDataType.java   | 3 ++-
 .../sidhant92/boolparser/datatype/DateTimeDataType.java      | 3 ++-
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 4f3f8d3..72155d7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -5,6 +5,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -160,8 +161,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0


From 9f66cf6428e1e37a728a8b2f411a6b6b59db68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 12/29] fix: do not expand huge exponents when converting to
 integer

A string field holding '1e999999999' compared with an integer exhausted the heap.
---
 .../github/sidhant92/boolparser/datatype/IntegerDataType.java | 4 ++--
 .../github/sidhant92/boolparser/datatype/LongDataType.java    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
index 9dcaa8b..b57bbd5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
@@ -24,7 +24,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Integer.parseInt(number.stripTrailingZeros().toPlainString());
+                number.intValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Integer.parseInt(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.intValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
index d68e242..0d5604a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
@@ -24,7 +24,7 @@ public class LongDataType extends AbstractDataType<Long> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Long.parseLong(number.stripTrailingZeros().toPlainString());
+                number.longValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class LongDataType extends AbstractDataType<Long> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Long.parseLong(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.longValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
-- 
2.43.0


From 05538e52f11a02ee70c5ff869092b24d40dc1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 13/29] fix: resolve function and operator names independently
 of the default locale

Under a Turkish locale 'min'.toUpperCase() is not MIN and CONTAINS_ANY fell back to =.
---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
-- 
2.43.0


From 36c07ce56a26655297e0c4802749d8afbb6d7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 14/29] fix: mode counts numerically equal values together

'mode(2, 1.0, 1.00)' returned 2.
---
 .../boolparser/function/arithmetic/ModeFunction.java     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..8e1d04c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -25,19 +25,20 @@ public class ModeFunction extends AbstractFunction {
 
         for (int i = 0; i < items.size(); i++) {
             final Object value = items.get(i).getValue();
+            final Object key = new BigDecimal(value.toString()).stripTrailingZeros();
 
-            if (hm.get(value) != null) {
+            if (hm.get(key) != null) {
 
-                int count = hm.get(value);
+                int count = hm.get(key);
                 count++;
-                hm.put(value, count);
+                hm.put(key, count);
 
                 if (count > max) {
                     max = count;
                     temp = value;
                 }
             } else {
-                hm.put(value, 1);
+                hm.put(key, 1);
             }
         }
         if (temp instanceof BigDecimal) {
-- 
2.43.0


From a5bdcb43aaf59a40f2a171e81330015d967c1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 15/29] fix: evaluate boolean fields and reject non boolean
 expressions

A field on its own, and an arithmetic expression where a condition is expected, were
silently evaluated to false whatever the data.
---
 .../application/BooleanExpressionEvaluator.java      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 1334dc9..ffe77bc 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -68,8 +69,10 @@ public class BooleanExpressionEvaluator {
                 return evaluateUnaryToken((UnaryNode) node, data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -165,8 +168,11 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data).orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From 83a76a5dd8de0d1788a5de6ea6e303ab0ca65bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 16/29] fix: keep the type of an expression made of a single
 literal

'5', '1.2.3' or 'true' on their own became strings.
---
 .../parser/antlr/BooleanFilterListener.java     | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 8c87e7f..ebc88e4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -5,7 +5,6 @@ import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
-import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
@@ -32,16 +31,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private final Stack<Node> currentNodes;
 
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
-
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
         this.currentNodes = new Stack<>();
     }
 
@@ -237,9 +231,8 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         if (this.node == null && !this.currentNodes.isEmpty()) {
             this.node = currentNodes.pop();
         }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
+        if (this.node == null) {
+            this.node = resolveOperand(ctx.expression());
         }
         if (this.node == null) {
             throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
@@ -258,12 +251,6 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         super.exitNotExpression(ctx);
     }
 
-    @Override
-    public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
-    }
-
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
         final Node firstNode = resolveOperand(ctx.right);
-- 
2.43.0


From 235265cfce0aba041a15889445621e82ad7e8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 17/29] fix: reject text which is not part of the expression

Unrecognised characters, trailing conditions ('a = 1 b = 2'), unterminated quotes and
any token dropped by the error recovery were silently ignored.
---
 .../boolparser/parser/antlr/BoolParser.java       | 15 +++++++++++++++
 .../parser/antlr/BooleanFilterListener.java       | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 29f4454..40c5760 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -1,15 +1,28 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import org.antlr.v4.runtime.ANTLRErrorListener;
+import org.antlr.v4.runtime.BaseErrorListener;
 import org.antlr.v4.runtime.CharStreams;
 import org.antlr.v4.runtime.CommonTokenStream;
+import org.antlr.v4.runtime.RecognitionException;
+import org.antlr.v4.runtime.Recognizer;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.ParseTreeWalker;
 import com.github.sidhant92.boolparser.domain.logical.Node;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import io.vavr.control.Try;
 
 public class BoolParser implements BoolExpressionParser {
+    private static final ANTLRErrorListener LEXER_ERROR_LISTENER = new BaseErrorListener() {
+        @Override
+        public void syntaxError(final Recognizer<?, ?> recognizer, final Object offendingSymbol, final int line, final int charPositionInLine,
+                                final String msg, final RecognitionException e) {
+            throw new InvalidExpressionException(String.format("Error parsing expression at %d:%d %s", line, charPositionInLine, msg));
+        }
+    };
+
     private final ParseTreeWalker parseTreeWalker = new ParseTreeWalker();
 
     public BoolParser() {
@@ -32,6 +45,8 @@ public class BoolParser implements BoolExpressionParser {
 
     protected Node parse(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
+        filterLexer.removeErrorListeners();
+        filterLexer.addErrorListener(LEXER_ERROR_LISTENER);
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
         final BooleanExpressionParser filterParser = new BooleanExpressionParser(commonTokenStream);
         final ParseTree parseTree = filterParser.parse();
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index ebc88e4..ec40506 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -6,6 +6,7 @@ import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
 import org.antlr.v4.runtime.Token;
+import org.antlr.v4.runtime.tree.ErrorNode;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
 import org.apache.commons.lang3.StringUtils;
@@ -43,6 +44,15 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         return this.node;
     }
 
+    @Override
+    public void visitErrorNode(final ErrorNode node) {
+        // Only a missing closing parenthesis is forgiven, the parser never drops any other part of the expression.
+        if (node.getSymbol().getTokenIndex() >= 0 || node.getSymbol().getType() != BooleanExpressionLexer.RPAREN) {
+            throw new InvalidExpressionException(String.format("Error parsing expression at %s", node.getText()));
+        }
+        super.visitErrorNode(node);
+    }
+
     @Override
     public void exitComparatorExpression(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         currentNodes.add(mapComparatorExpressionContext(ctx));
-- 
2.43.0


From 66eb7e98a1c9182e737912a6c1dcad806508173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 18/29] fix: reject incomplete expressions while parsing

Missing operands, bounds and values (and literal dates which do not exist) produced
nodes with null contents instead of an invalid expression.
---
 .../parser/antlr/BooleanFilterListener.java   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index ec40506..a19f0e0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -5,6 +5,7 @@ import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
+import org.antlr.v4.runtime.ParserRuleContext;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ErrorNode;
 import org.antlr.v4.runtime.tree.ParseTree;
@@ -44,9 +45,18 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         return this.node;
     }
 
+    @Override
+    public void enterEveryRule(final ParserRuleContext ctx) {
+        final boolean unclosedWordlist = ctx instanceof BooleanExpressionParser.WordlistContext && ((BooleanExpressionParser.WordlistContext) ctx).first != null;
+        if (ctx.exception != null && !unclosedWordlist) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
+        super.enterEveryRule(ctx);
+    }
+
     @Override
     public void visitErrorNode(final ErrorNode node) {
-        // Only a missing closing parenthesis is forgiven, the parser never drops any other part of the expression.
+        // A missing closing parenthesis is forgiven, dropping any other part of the expression is not.
         if (node.getSymbol().getTokenIndex() >= 0 || node.getSymbol().getType() != BooleanExpressionLexer.RPAREN) {
             throw new InvalidExpressionException(String.format("Error parsing expression at %s", node.getText()));
         }
@@ -74,6 +84,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitToExpression(BooleanExpressionParser.ToExpressionContext ctx) {
+        if (ctx.lower.getChildCount() == 0 || ctx.upper.getChildCount() == 0) {
+            throw new InvalidExpressionException(String.format("Error parsing expression (missing bound) for the string %s", ctx.getText()));
+        }
         currentNodes.add(mapToExpressionContext(ctx));
         super.exitToExpression(ctx);
     }
@@ -130,6 +143,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
         final String value = StringUtils.isBlank(ctx.getText()) ? defaultField : ctx.getText();
+        if (StringUtils.isBlank(value)) {
+            throw new InvalidExpressionException("Error parsing expression (missing field or value)");
+        }
         return new FieldNode(value);
     }
 
@@ -142,6 +158,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         }
         final DataType dataType = getDataType(ctx.start);
         final Object value = ValueUtils.convertValue(ctx.start.getText(), dataType);
+        if (Objects.isNull(value)) {
+            throw new InvalidExpressionException(String.format("Invalid value %s", ctx.getText()));
+        }
         return new UnaryNode(dataType, value);
     }
 
-- 
2.43.0


From 06957b13e75fabaf987948899c415a5cd9881e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 19/29] fix: return a failure for expressions which are nested
 too deeply

The StackOverflowError escaped the Try returned by the parsers and evaluators.
---
 .../application/ArithmeticExpressionEvaluator.java       | 9 ++++++++-
 .../application/BooleanExpressionEvaluator.java          | 9 ++++++++-
 .../sidhant92/boolparser/parser/antlr/BoolParser.java    | 8 ++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 7eb885c..ac90287 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -16,6 +16,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticNode;
 import com.github.sidhant92.boolparser.domain.logical.Node;
 import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticFunctionNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
+import com.github.sidhant92.boolparser.exception.ExpressionEvaluationException;
 import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.function.FunctionEvaluatorService;
 import com.github.sidhant92.boolparser.operator.OperatorService;
@@ -42,7 +43,13 @@ public class ArithmeticExpressionEvaluator {
 
     public Try<Object> evaluate(final String expression, final Map<String, Object> data) {
         final Try<Node> tokenOptional = boolExpressionParser.parseExpression(expression, null);
-        return tokenOptional.map(node -> evaluateToken(node, data));
+        return tokenOptional.map(node -> {
+            try {
+                return evaluateToken(node, data);
+            } catch (final StackOverflowError error) {
+                throw new ExpressionEvaluationException();
+            }
+        });
     }
 
     protected Object evaluate(final Node node, final Map<String, Object> data) {
diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index ffe77bc..d98b4be 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -21,6 +21,7 @@ import com.github.sidhant92.boolparser.domain.logical.Node;
 import com.github.sidhant92.boolparser.domain.arithmetic.UnaryNode;
 import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
+import com.github.sidhant92.boolparser.exception.ExpressionEvaluationException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
 import com.github.sidhant92.boolparser.exception.UnsupportedToken;
@@ -48,7 +49,13 @@ public class BooleanExpressionEvaluator {
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data, final String defaultField) {
         final Try<Node> tokenOptional = boolExpressionParser.parseExpression(expression, defaultField);
-        return tokenOptional.map(node -> evaluateToken(node, data));
+        return tokenOptional.map(node -> {
+            try {
+                return evaluateToken(node, data);
+            } catch (final StackOverflowError error) {
+                throw new ExpressionEvaluationException();
+            }
+        });
     }
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data) {
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 40c5760..add8540 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -44,6 +44,14 @@ public class BoolParser implements BoolExpressionParser {
     }
 
     protected Node parse(final String expression, final String defaultField) {
+        try {
+            return parseTree(expression, defaultField);
+        } catch (final StackOverflowError error) {
+            throw new InvalidExpressionException("Error parsing expression, it is nested too deeply");
+        }
+    }
+
+    private Node parseTree(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
         filterLexer.removeErrorListeners();
         filterLexer.addErrorListener(LEXER_ERROR_LISTENER);
-- 
2.43.0


From 1337b27ef6c7749e4b14b72e00a330fa6b0c0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 20/29] fix: accept versions with a major component of several
 digits

'10.2.3' was read as a field name. The lexer table is what ANTLR emits for the updated rule.
---
 .../boolparser/parser/antlr/BooleanExpressionLexer.java         | 2 +-
 src/main/java/resources/BooleanExpression.g4                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanExpressionLexer.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanExpressionLexer.java
index 6b10f3f..592aa53 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanExpressionLexer.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanExpressionLexer.java
@@ -359,7 +359,7 @@ public class BooleanExpressionLexer extends Lexer {
 		"\u0168\u0007\u0000\u0000\u0000\u0167\u0166\u0001\u0000\u0000\u0000\u0168"+
 		"\u0169\u0001\u0000\u0000\u0000\u0169\u0167\u0001\u0000\u0000\u0000\u0169"+
 		"\u016a\u0001\u0000\u0000\u0000\u016aF\u0001\u0000\u0000\u0000\u016b\u016e"+
-		"\u0007\u0000\u0000\u0000\u016c\u016d\u0005.\u0000\u0000\u016d\u016f\u0003"+
+		"\u0003I$\u0000\u016c\u016d\u0005.\u0000\u0000\u016d\u016f\u0003"+
 		"I$\u0000\u016e\u016c\u0001\u0000\u0000\u0000\u016f\u0170\u0001\u0000\u0000"+
 		"\u0000\u0170\u016e\u0001\u0000\u0000\u0000\u0170\u0171\u0001\u0000\u0000"+
 		"\u0000\u0171H\u0001\u0000\u0000\u0000\u0172\u0174\u0007\u0000\u0000\u0000"+
diff --git a/src/main/java/resources/BooleanExpression.g4 b/src/main/java/resources/BooleanExpression.g4
index 6b84f66..0cdd65c 100644
--- a/src/main/java/resources/BooleanExpression.g4
+++ b/src/main/java/resources/BooleanExpression.g4
@@ -110,7 +110,7 @@ EQ           : '=' ;
 LPAREN       : '(' ;
 RPAREN       : ')' ;
 DECIMAL      : [0-9]+ '.' [0-9]+;
-APP_VERSION  : [0-9] ('.' INTEGER)+;
+APP_VERSION  : INTEGER ('.' INTEGER)+;
 INTEGER      : [0-9]+;
 DATE         : DATE_PATTERN;
 DATETIME     : DATETIME_PATTERN;
-- 
2.43.0


From 72083f0ded439292afd1ef375b42a0cfa52f20a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 21/29] fix: integral powers beyond the int range are integers

---
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 72155d7..ac84d94 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -91,6 +91,9 @@ public class ValueUtils {
         if ((int) value == value) {
             return (int) value;
         }
+        if ((long) value == value && Math.abs(value) <= 1L << 53) {
+            return (long) value;
+        }
         return new BigDecimal(value);
     }
 
-- 
2.43.0


From 917fdcbde267b960018a08aef4986330b8ca549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 22/29] fix: parentheses around an operand do not change the
 data type of a comparison

---
 .../parser/antlr/BooleanFilterListener.java        | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index a19f0e0..8da0610 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -180,11 +180,21 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
         final Node right = resolveOperand(ctx.right);
         final Node left = resolveOperand(ctx.left);
-        final boolean useLeftDataType = !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) && ctx.left instanceof BooleanExpressionParser.TypesExpressionContext;
-        final DataType dataType = getDataType(useLeftDataType ? ctx.left.getStart() : ctx.right.getStart());
+        final BooleanExpressionParser.ExpressionContext leftOperand = withoutParentheses(ctx.left);
+        final BooleanExpressionParser.ExpressionContext rightOperand = withoutParentheses(ctx.right);
+        final boolean useLeftDataType = !(rightOperand instanceof BooleanExpressionParser.TypesExpressionContext) && leftOperand instanceof BooleanExpressionParser.TypesExpressionContext;
+        final DataType dataType = getDataType(useLeftDataType ? leftOperand.getStart() : rightOperand.getStart());
         return new ComparisonNode(left, right, operator, dataType);
     }
 
+    private BooleanExpressionParser.ExpressionContext withoutParentheses(final BooleanExpressionParser.ExpressionContext ctx) {
+        BooleanExpressionParser.ExpressionContext inner = ctx;
+        while (inner instanceof BooleanExpressionParser.ParentExpressionContext) {
+            inner = ((BooleanExpressionParser.ParentExpressionContext) inner).expression();
+        }
+        return inner;
+    }
+
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
         final Node right = resolveOperand(ctx.right);
-- 
2.43.0


From bd85f1ca7f485d62aa58b4618ee01d390fb7f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 23/29] fix: reject an unclosed list which ends with a comma

---
 .../boolparser/parser/antlr/BooleanFilterListener.java          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 8da0610..d79a514 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -47,7 +47,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void enterEveryRule(final ParserRuleContext ctx) {
-        final boolean unclosedWordlist = ctx instanceof BooleanExpressionParser.WordlistContext && ((BooleanExpressionParser.WordlistContext) ctx).first != null;
+        final boolean unclosedWordlist = ctx instanceof BooleanExpressionParser.WordlistContext && !(ctx.getChild(ctx.getChildCount() - 1) instanceof TerminalNodeImpl);
         if (ctx.exception != null && !unclosedWordlist) {
             throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
         }
-- 
2.43.0


From a2749ff4b5f8a6d0107fcf095a523294485819f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 24/29] fix: sign of powers with exponents beyond 2^53

---
 .../boolparser/operator/arithmetic/ExponentOperator.java      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
index 1272893..93843c5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
@@ -30,7 +30,9 @@ public class ExponentOperator extends AbstractOperator {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long base = longDataType.getValue(leftOperand).get();
         final long exponent = longDataType.getValue(rightOperand).get();
-        final double result = Math.pow(base, exponent);
+        // the sign follows from the parity of the exponent, which a double can not hold for every long
+        final double magnitude = Math.pow(Math.abs((double) base), exponent);
+        final double result = base < 0 && exponent % 2 != 0 ? -magnitude : magnitude;
         if (Math.abs(result) >= MAX_EXACT_DOUBLE && Math.abs(result) <= Long.MAX_VALUE) {
             return ValueUtils.castDecimal(BigDecimal.valueOf(base).pow((int) exponent));
         }
-- 
2.43.0


From 78cb0450cb57ace39db68cfe46bcd4642e770ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 25/29] fix: a membership test without items is an invalid
 expression

---
 .../boolparser/parser/antlr/BooleanFilterListener.java         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index d79a514..3c9154c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -115,6 +115,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private List<Node> getArrayElements(final List<ParseTree> trees) {
+        if (Objects.isNull(trees)) {
+            throw new InvalidExpressionException("Error parsing expression (missing items)");
+        }
         final LinkedList<Node> items = new LinkedList<>();
         for (int i = trees.size() - 1; i >= 0; i--) {
             if (!(trees.get(i) instanceof TerminalNodeImpl)) {
-- 
2.43.0


From 12c31d0ec57097243f5f6e0f7ec67620c383812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 26/29] fix: an integer literal beyond the long range is an
 invalid expression

---
 .../parser/antlr/BooleanFilterListener.java        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 3c9154c..bd6a6fd 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -160,7 +160,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
             return mapTypesExpressionContextField(ctx);
         }
         final DataType dataType = getDataType(ctx.start);
-        final Object value = ValueUtils.convertValue(ctx.start.getText(), dataType);
+        final Object value = convertValue(ctx.start.getText(), dataType);
         if (Objects.isNull(value)) {
             throw new InvalidExpressionException(String.format("Invalid value %s", ctx.getText()));
         }
@@ -221,9 +221,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         validateField(ctx.field, ctx.getText());
         final String field = getField(ctx.field.getText());
         final DataType lowerDataType = getDataType(ctx.lower.start);
-        final Object lowerValue = ValueUtils.convertValue(ctx.lower.start.getText(), lowerDataType);
+        final Object lowerValue = convertValue(ctx.lower.start.getText(), lowerDataType);
         final DataType upperDataType = getDataType(ctx.upper.start);
-        final Object upperValue = ValueUtils.convertValue(ctx.upper.getText(), upperDataType);
+        final Object upperValue = convertValue(ctx.upper.getText(), upperDataType);
         return new NumericRangeNode(field, lowerValue, upperValue, lowerDataType, upperDataType);
     }
 
@@ -233,6 +233,14 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         }
     }
 
+    private Object convertValue(final String value, final DataType dataType) {
+        try {
+            return ValueUtils.convertValue(value, dataType);
+        } catch (final NumberFormatException ex) {
+            throw new InvalidExpressionException(String.format("Invalid value %s", value));
+        }
+    }
+
     private String getField(final String field) {
         return StringUtils.isBlank(field) ? defaultField : field;
     }
-- 
2.43.0


From bb66bfee94f1c3a6049a6fe1720f70e579c63f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 27/29] fix: a field path of dots only names no entry

---
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index ac84d94..ac062fe 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -21,6 +21,9 @@ public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
         final String[] keys = key.split("\\.");
         final int size = keys.length;
+        if (size == 0) {
+            return Optional.empty();
+        }
         final Optional<Object> fieldData = Optional.ofNullable(data.get(keys[0]));
         if (size == 1) {
             return fieldData;
-- 
2.43.0


From a43fe9706048873d40feccb131df17029b5b2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 28/29] fix: an undefined or infinite power is an
 ArithmeticException

---
 .../boolparser/operator/arithmetic/ExponentOperator.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
index 93843c5..ea536b0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/ExponentOperator.java
@@ -24,7 +24,7 @@ public class ExponentOperator extends AbstractOperator {
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL) || rightOperandDataType.equals(DataType.DECIMAL)) {
             final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
-            return ValueUtils.castDecimal(
+            return castResult(
                     Math.pow(decimalDataType.getValue(leftOperand).get().doubleValue(), decimalDataType.getValue(rightOperand).get().doubleValue()));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
@@ -36,6 +36,13 @@ public class ExponentOperator extends AbstractOperator {
         if (Math.abs(result) >= MAX_EXACT_DOUBLE && Math.abs(result) <= Long.MAX_VALUE) {
             return ValueUtils.castDecimal(BigDecimal.valueOf(base).pow((int) exponent));
         }
+        return castResult(result);
+    }
+
+    private Object castResult(final double result) {
+        if (Double.isNaN(result) || Double.isInfinite(result)) {
+            throw new ArithmeticException("The power is undefined or out of range");
+        }
         return ValueUtils.castDecimal(result);
     }
 
-- 
2.43.0


From 06b2b6ad77342618ab85049eed11ccb5df7f1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 29/29] fix: a null element of a list used as an item is not
 text

---
 .../github/sidhant92/boolparser/datatype/StringDataType.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/StringDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/StringDataType.java
index 91f8d21..4dd26bd 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/StringDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/StringDataType.java
@@ -36,6 +36,6 @@ public class StringDataType extends AbstractDataType<String> {
         if (result.isPresent()) {
             return result;
         }
-        return Optional.of(value.toString());
+        return Optional.ofNullable(value).map(Object::toString);
     }
 }
-- 
2.43.0

