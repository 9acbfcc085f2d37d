From 55b828bc9749d1586f00b15dfe5bdef04b3e8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 01/21] fix: resolve the operands of nested expressions from
 the nodes their own sub-expressions pushed

Predicates that leave more than one node on the listener's stack (IN, ranges,
CONTAINS_*, functions with computed arguments) made a following comparison take
a foreign node as its operand: 'a in (1,10) and b = 3' failed to evaluate and
'b = 3 and min(a + 1, 2) < 30' was answered from the wrong operands.
---
 .../parser/antlr/BooleanFilterListener.java   | 127 +++++++-----------
 1 file changed, 52 insertions(+), 75 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..652b1d3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -1,9 +1,9 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
-import java.util.stream.Collectors;
 import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
@@ -62,9 +62,8 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
-        currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
+        final Node operand = resolveOperand(ctx.exp);
+        currentNodes.add(ArithmeticNode.builder().left(operand).operator(Operator.UNARY).build());
         super.enterUnaryArithmeticExpression(ctx);
     }
 
@@ -98,31 +97,48 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private List<Node> getArrayElements(final List<ParseTree> trees) {
-        return trees
-                .stream()
-                .filter(child -> !(child instanceof TerminalNodeImpl))
-                .map(this::mapContextToNode)
-                .collect(Collectors.toList());
+        final LinkedList<Node> items = new LinkedList<>();
+        for (int i = trees.size() - 1; i >= 0; i--) {
+            if (!(trees.get(i) instanceof TerminalNodeImpl)) {
+                items.addFirst(resolveOperand(trees.get(i)));
+            }
+        }
+        return items;
     }
 
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
+    /**
+     * Every expression other than a plain type or a parenthesis has pushed exactly one node by the time its parent is exited,
+     * so the operands of an expression have to be resolved from the last one to the first one.
+     */
+    private Node resolveOperand(final ParseTree ctx) {
+        if (ctx instanceof BooleanExpressionParser.ParentExpressionContext) {
+            return resolveOperand(((BooleanExpressionParser.ParentExpressionContext) ctx).expression());
+        }
+        if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
             return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
-            throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
         }
+        return popNode(ctx);
+    }
+
+    private Node resolveLogicalOperand(final ParseTree ctx) {
+        if (ctx instanceof BooleanExpressionParser.ParentExpressionContext) {
+            return resolveLogicalOperand(((BooleanExpressionParser.ParentExpressionContext) ctx).expression());
+        }
+        if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && StringUtils.isNotBlank(ctx.getText())) {
+            final Token token = ((BooleanExpressionParser.TypesExpressionContext) ctx).start;
+            final DataType dataType = getDataType(token);
+            return new UnaryNode(dataType, ValueUtils.convertValue(token.getText(), dataType));
+        }
+        return popNode(ctx);
+    }
+
+    private Node popNode(final ParseTree ctx) {
+        final boolean pushed = ctx instanceof BooleanExpressionParser.ExpressionContext && !(ctx instanceof BooleanExpressionParser.TypesExpressionContext)
+                && !ctx.getClass().equals(BooleanExpressionParser.ExpressionContext.class);
+        if (!pushed || currentNodes.isEmpty()) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", Objects.isNull(ctx) ? "" : ctx.getText()));
+        }
+        return currentNodes.pop();
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
@@ -155,46 +171,18 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        final boolean literalOnLeft = ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext);
+        final DataType dataType = getDataType(literalOnLeft ? ctx.left.getStart() : ctx.right.getStart());
+        final Node right = resolveOperand(ctx.right);
+        final Node left = resolveOperand(ctx.left);
+        return new ComparisonNode(left, right, operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        final Node right = resolveOperand(ctx.right);
+        final Node left = resolveOperand(ctx.left);
+        return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
@@ -277,15 +265,7 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
-        }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
+        final BooleanNode booleanToken = new BooleanNode(resolveLogicalOperand(ctx.expression()), null, LogicalOperationType.NOT);
         currentNodes.add(booleanToken);
         super.exitNotExpression(ctx);
     }
@@ -298,11 +278,8 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
+        final Node firstNode = resolveLogicalOperand(ctx.right);
+        final Node secondNode = resolveLogicalOperand(ctx.left);
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
         final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
         currentNodes.add(booleanToken);
-- 
2.43.0


From 424edba435dd3794b2395b14a5ebefa28d941091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 02/21] fix: keep the type of an expression that is a single
 literal

'5' was evaluated to the string "5" and 'true' to the string "true", and an
empty expression to the string "<EOF>".
---
 .../parser/antlr/BooleanFilterListener.java   | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 652b1d3..63dd342 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -4,7 +4,6 @@ import java.util.LinkedList;
 import java.util.List;
 import java.util.Objects;
 import java.util.Stack;
-import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
@@ -31,16 +30,11 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private final Stack<Node> currentNodes;
 
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
-
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
         this.currentNodes = new Stack<>();
     }
 
@@ -250,16 +244,10 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
-        if (this.node == null && !this.currentNodes.isEmpty()) {
-            this.node = currentNodes.pop();
-        }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
-        }
-        if (this.node == null) {
+        if (StringUtils.isBlank(ctx.expression().getText())) {
             throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
         }
+        this.node = resolveOperand(ctx.expression());
         super.exitParse(ctx);
     }
 
@@ -270,12 +258,6 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         super.exitNotExpression(ctx);
     }
 
-    @Override
-    public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
-    }
-
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
         final Node firstNode = resolveLogicalOperand(ctx.right);
-- 
2.43.0


From af10fb35b06277eb99e910937c98f8c680c65abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 03/21] fix: never answer false for an expression that is not a
 predicate

A bare boolean field was answered false whatever its value, and so was an
arithmetic expression; the former is its value, the latter is an error.
---
 .../application/BooleanExpressionEvaluator.java      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..10a4efa 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -66,10 +67,12 @@ public class BooleanExpressionEvaluator {
                 return evaluateArrayToken((ArrayNode) node, data);
             case UNARY:
                 return evaluateUnaryToken((UnaryNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -161,8 +164,11 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data).orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From e3b5a80258d85efba91ffccb306c2a5fb86b10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 04/21] fix: subtract integers without wrapping around at 32
 bits

0 - (-2147483647) - ... e.g. a - b with a=2147483647, b=-1 was -2147483648; the
result is now a long when it does not fit an int, as for + and *.
---
 .../operator/arithmetic/SubtractOperator.java          | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..78ecd64 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -8,8 +8,8 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
-import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -23,12 +23,8 @@ public class SubtractOperator extends AbstractOperator {
             final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
             return decimalDataType.getValue(leftOperand).get().subtract(decimalDataType.getValue(rightOperand).get());
         }
-        if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
-            final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
-        }
-        final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
+        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get());
     }
 
     @Override
-- 
2.43.0


From 21f103c33ea13d1e1c7a2f59f4168b68fbfd0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 05/21] fix: fail instead of wrapping around when a long result
 overflows 64 bits

+, -, *, SUM and AVG answered a wrong number for results beyond the long range.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java   | 2 +-
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java   | 2 +-
 .../sidhant92/boolparser/operator/arithmetic/AddOperator.java   | 2 +-
 .../boolparser/operator/arithmetic/MultiplyOperator.java        | 2 +-
 .../boolparser/operator/arithmetic/SubtractOperator.java        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..6f8d074 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -37,7 +37,7 @@ public class AvgFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
         return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..5cbc971 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,7 +36,7 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
         return ValueUtils.castDecimal(sum);
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4e729b2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,7 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index 78ecd64..bc5c76a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -24,7 +24,7 @@ public class SubtractOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().subtract(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
-- 
2.43.0


From 12d81d8ad4a473c4e7ee2c7969505094bdb45f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 06/21] fix: keep MIN, MAX and SUM of longs exact

They went through double: MAX(9007199254740993, 1) was 9007199254740992.
---
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 5cbc971..999e5c5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -37,7 +37,7 @@ public class SumFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
                 .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
-        return ValueUtils.castDecimal(sum);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
-- 
2.43.0


From f30ad73b22f09cb53fb687ac0f79c93ccb06e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 07/21] fix: answer AVG and MEAN of integers whose average has
 more than two decimals

AVG(1, 2, 2) failed with 'Rounding necessary'.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 6f8d074..400a3b5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -38,7 +38,7 @@ public class AvgFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
                 .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From 5c9aaef3e2fbe15526bd8b3f48e916c8d7bbfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 08/21] fix: return whole decimal results beyond the int range

5000000000.0 / 1, or SUM, MIN, MAX, AVG and MEDIAN of such decimals, failed with
an overflow.
---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..4f3f8d3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,11 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            try {
+                return castLong(value.longValueExact());
+            } catch (ArithmeticException ex) {
+                return value;
+            }
         }
         return value;
     }
-- 
2.43.0


From 94f7b7eabb97c828d87de0572afb505c611a2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 09/21] fix: negate floats, doubles and the smallest int and
 long correctly

-a failed for a Float or Double field, and was a itself for the smallest int
and the smallest long.
---
 .../operator/arithmetic/UnaryOperator.java         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..e9af2ca 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,15 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
+import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -17,12 +20,11 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
-        if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
-        }
-        return -(int) leftOperand;
+        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
+        return ValueUtils.castLong(Math.negateExact(longDataType.getValue(leftOperand).get()));
     }
 
     @Override
-- 
2.43.0


From 087f702f586ae8cfbde4d3e7226589b1ded35717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 10/21] fix: do not drop the high bits in INT

INT(3000000000) was -1294967296.
---
 .../boolparser/function/arithmetic/IntFunction.java         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..d513e88 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,10 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            return ValueUtils.castDecimal(((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).setScale(0, RoundingMode.DOWN));
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
-- 
2.43.0


From 0b374c8300f8ba967c1a654724e94989b5f153a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:42 +0000
Subject: [PATCH 11/21] fix: do not confuse cached expressions whose text and
 default field join to the same key

Parsing '= b_c' with default field 'a' and then '= b' with default field 'c_a'
style pairs could return the node cached for the other one.
---
 .../boolparser/parser/antlr/CachedBoolParser.java          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..1693c58 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,6 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import org.apache.commons.lang3.tuple.Pair;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +8,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +26,6 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
-        return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
+        return cache.get(Pair.of(expression, defaultField), ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 9cda79c809f1fee456de08425af217fc08ba8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 12/21] fix: check the operand of a null check, whichever side
 null is on

'null = a' was true and 'null != a' false for every a, and a field holding the
text 'null' was taken for an absent one.
---
 .../application/BooleanExpressionEvaluator.java       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 10a4efa..39d48db 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -92,11 +92,14 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            final boolean nullOnLeft = comparisonToken.getLeft() instanceof FieldNode && ((FieldNode) comparisonToken.getLeft()).isNull();
+            final boolean isNull = !getValue(nullOnLeft ? comparisonToken.getRight() : comparisonToken.getLeft(), data).isPresent();
+            return isNull == comparisonToken.getOperator().equals(Operator.EQUALS);
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
-- 
2.43.0


From e6a57751ca616a04f026c2195cc4d7f60f4fcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 13/21] fix: evaluate CONTAINS_ANY and CONTAINS_ALL on sets and
 arrays

They are accepted as containers but failed with a ClassCastException.
---
 .../boolparser/operator/comparison/ContainsAllOperator.java    | 3 ++-
 .../boolparser/operator/comparison/ContainsAnyOperator.java    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..caf9e78 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -21,7 +22,7 @@ public class ContainsAllOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..15b21e2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -21,7 +22,7 @@ public class ContainsAnyOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
                 .map(a -> Pair.of(a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
-- 
2.43.0


From de63283a4cb9c1170d7143fc0c114a7cd51cb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 14/21] fix: count equal numbers of different types together in
 MODE

---
 .../function/arithmetic/ModeFunction.java       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..10bfc9a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -3,12 +3,14 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
-import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
+import java.util.TreeMap;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
@@ -19,25 +21,28 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class ModeFunction extends AbstractFunction {
     @Override
     public Object evaluate(final List<EvaluatedNode> items) {
-        Map<Object, Integer> hm = new HashMap<Object, Integer>();
+        final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+        Map<BigDecimal, Integer> hm = new TreeMap<>();
         int max = 1;
         Object temp = items.get(0).getValue();
 
         for (int i = 0; i < items.size(); i++) {
             final Object value = items.get(i).getValue();
 
-            if (hm.get(value) != null) {
+            final BigDecimal number = decimalDataType.getValue(value).get();
 
-                int count = hm.get(value);
+            if (hm.get(number) != null) {
+
+                int count = hm.get(number);
                 count++;
-                hm.put(value, count);
+                hm.put(number, count);
 
                 if (count > max) {
                     max = count;
                     temp = value;
                 }
             } else {
-                hm.put(value, 1);
+                hm.put(number, 1);
             }
         }
         if (temp instanceof BigDecimal) {
-- 
2.43.0


From ab2be0f842e97ac6b49d9f8815078d1822d15d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 15/21] fix: compare the elements of a collection by their own
 types in CONTAINS_ANY and CONTAINS_ALL

---
 .../boolparser/operator/comparison/ContainsAllOperator.java    | 3 ++-
 .../boolparser/operator/comparison/ContainsAnyOperator.java    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index caf9e78..d74a944 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -9,6 +9,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -23,7 +24,7 @@ public class ContainsAllOperator extends AbstractOperator {
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
                 .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 15b21e2..872eb1c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -9,6 +9,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -23,7 +24,7 @@ public class ContainsAnyOperator extends AbstractOperator {
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
                 .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-- 
2.43.0


From 0373d877d5e0731f8293e34c1319d5e5daca7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 16/21] fix: reject an expression instead of evaluating the
 part of it that could be read

---
 .../boolparser/parser/antlr/BoolParser.java   | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 29f4454..1d66912 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -1,15 +1,34 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
+import org.antlr.v4.runtime.ANTLRErrorListener;
+import org.antlr.v4.runtime.BaseErrorListener;
 import org.antlr.v4.runtime.CharStreams;
 import org.antlr.v4.runtime.CommonTokenStream;
+import org.antlr.v4.runtime.RecognitionException;
+import org.antlr.v4.runtime.Recognizer;
+import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
 import org.antlr.v4.runtime.tree.ParseTreeWalker;
 import com.github.sidhant92.boolparser.domain.logical.Node;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import io.vavr.control.Try;
 
 public class BoolParser implements BoolExpressionParser {
+    /**
+     * The error recovery of the parser skips what it can not read, so the remainder would be evaluated in place of the expression.
+     */
+    private static final ANTLRErrorListener UNREADABLE_INPUT_LISTENER = new BaseErrorListener() {
+        @Override
+        public void syntaxError(final Recognizer<?, ?> recognizer, final Object offendingSymbol, final int line, final int charPositionInLine,
+                                final String msg, final RecognitionException e) {
+            if (!(offendingSymbol instanceof Token) || ((Token) offendingSymbol).getType() != Token.EOF) {
+                throw new InvalidExpressionException(String.format("Error parsing expression at line %s:%s %s", line, charPositionInLine, msg));
+            }
+        }
+    };
+
     private final ParseTreeWalker parseTreeWalker = new ParseTreeWalker();
 
     public BoolParser() {
@@ -34,6 +53,8 @@ public class BoolParser implements BoolExpressionParser {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
         final BooleanExpressionParser filterParser = new BooleanExpressionParser(commonTokenStream);
+        filterLexer.addErrorListener(UNREADABLE_INPUT_LISTENER);
+        filterParser.addErrorListener(UNREADABLE_INPUT_LISTENER);
         final ParseTree parseTree = filterParser.parse();
 
         final BooleanFilterListener listener = new BooleanFilterListener(defaultField);
-- 
2.43.0


From 17411dc27a0c743f122ab0aa79e620d61d35af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 17/21] fix: look up functions and operators independently of
 the default locale

---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
-- 
2.43.0


From 400a82307539ed27835c95ee9cab5e2eecd73a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 18/21] fix: do not evaluate a quoted text or a number as the
 field of that name

---
 .../boolparser/application/BooleanExpressionEvaluator.java | 7 ++++++-
 .../boolparser/parser/antlr/BooleanFilterListener.java     | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 39d48db..d501d87 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -48,7 +48,12 @@ public class BooleanExpressionEvaluator {
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data, final String defaultField) {
         final Try<Node> tokenOptional = boolExpressionParser.parseExpression(expression, defaultField);
-        return tokenOptional.map(node -> evaluateToken(node, data));
+        return tokenOptional.map(node -> {
+            if (node instanceof UnaryNode && !((UnaryNode) node).getDataType().equals(DataType.BOOLEAN)) {
+                throw new InvalidUnaryOperand();
+            }
+            return evaluateToken(node, data);
+        });
     }
 
     public Try<Boolean> evaluate(final String expression, final Map<String, Object> data) {
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 63dd342..bfd01f0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -121,6 +121,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && StringUtils.isNotBlank(ctx.getText())) {
             final Token token = ((BooleanExpressionParser.TypesExpressionContext) ctx).start;
             final DataType dataType = getDataType(token);
+            if (token.getType() != BooleanExpressionLexer.FIELD && dataType != DataType.BOOLEAN) {
+                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+            }
             return new UnaryNode(dataType, ValueUtils.convertValue(token.getText(), dataType));
         }
         return popNode(ctx);
-- 
2.43.0


From c7c006fbf187ddef2fcf4ea20a4fc4743a903162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 19/21] fix: reject a date literal that is not a date instead
 of evaluating it as null

---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 4f3f8d3..f00b403 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -15,6 +15,7 @@ import java.util.stream.Collectors;
 import org.apache.maven.artifact.versioning.ComparableVersion;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.exception.InvalidDataType;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
@@ -72,9 +73,9 @@ public class ValueUtils {
             case VERSION:
                 return new ComparableVersion(value);
             case DATE:
-                return parseDate(value).orElse(null);
+                return parseDate(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid date %s", value)));
             case DATETIME:
-                return parseDateTime(value).orElse(null);
+                return parseDateTime(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid date time %s", value)));
             default:
                 if (value.startsWith("'") && value.endsWith("'")) {
                     return value.substring(1, value.length() - 1);
-- 
2.43.0


From b9333693999fdd75dfb0cd03f303f29dfaee7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 20/21] fix: do not take days that do not exist, such as
 2021-02-30, for the last day of the month

---
 .../github/sidhant92/boolparser/datatype/DateDataType.java   | 3 ++-
 .../sidhant92/boolparser/datatype/DateTimeDataType.java      | 3 ++-
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index f00b403..f7dbe50 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -5,6 +5,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -161,8 +162,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0


From 11b0b9c56b63c989140ac31c074dc1fc300782a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 21/21] fix: average longs whose sum does not fit in 64 bits

---
 .../boolparser/function/arithmetic/AvgFunction.java       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 400a3b5..9992389 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -36,9 +36,11 @@ public class AvgFunction extends AbstractFunction {
             return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.DOWN));
+        final BigDecimal sum = items
+                .stream()
+                .map(a -> BigDecimal.valueOf(longDataType.getValue(a.getValue()).get()))
+                .reduce(BigDecimal.ZERO, BigDecimal::add);
+        return ValueUtils.castDecimal(sum.divide(new BigDecimal(items.size()), 2, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0

