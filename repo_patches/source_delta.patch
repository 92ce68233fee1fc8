From 03e58325c862a9186297167f34e4b3b59a3634d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 01/13] fix: evaluate the operands of a bare sum roll on the
 left of a comparison

---
 pkg/core/evaluator/eval_var_args.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..21c3121 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -157,8 +157,18 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
+	left := node.Left()
+	var leftEvalErr error
+
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	if left.IsPrimaryExpression() {
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From 830660daa2884ef29d9b90efdf34a318f1f438b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 02/13] fix: substitute random numbers that stand alone in a
 sum roll expression

---
 pkg/core/evaluator/eval_var_args.go | 75 +++++++++++------------------
 1 file changed, 29 insertions(+), 46 deletions(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 21c3121..51479c0 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -143,32 +143,15 @@ func (e *Evaluator) evalVarArgsInURollExpr(node *ast.URollExpr) error {
 
 // evalVarArgsInCommand はコマンドノード内の可変ノードの引数を評価して整数に変換する。
 func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
-	expr := node.Expression
-	if expr.IsPrimaryExpression() {
-		if expr.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(expr)
-		}
-
-		return nil
-	}
-
-	return e.EvalVarArgs(expr)
+	return e.evalVarArgsInChild(node.Expression, func(newNode ast.Node) {
+		node.Expression = newNode
+	})
 }
 
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
-	left := node.Left()
-	var leftEvalErr error
-
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	if left.IsPrimaryExpression() {
-		if left.IsVariable() {
-			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
-		}
-	} else {
-		leftEvalErr = e.EvalVarArgs(left)
-	}
-
+	leftEvalErr := e.evalVarArgsInChild(node.Left(), node.SetLeft)
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
@@ -186,43 +169,43 @@ func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 
 // evalVarArgsInCommand は前置式内の可変ノードの引数を評価して整数に変換する。
 func (e *Evaluator) evalVarArgsInPrefixExpression(node ast.PrefixExpression) error {
-	right := node.Right()
-	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
-		}
-
-		return nil
-	}
-
-	return e.EvalVarArgs(right)
+	return e.evalVarArgsInChild(node.Right(), node.SetRight)
 }
 
 // evalVarArgsInCommand は中置式内の可変ノードの引数を評価して整数に変換する。
 func (e *Evaluator) evalVarArgsInInfixExpression(node ast.InfixExpression) error {
-	left := node.Left()
-	var leftErr error
+	leftErr := e.evalVarArgsInChild(node.Left(), node.SetLeft)
+	if leftErr != nil {
+		return leftErr
+	}
 
-	if left.IsPrimaryExpression() {
-		if left.IsVariable() {
-			leftErr = e.evalVarArgsOfVariableExpr(left)
-		}
-	} else {
-		leftErr = e.EvalVarArgs(left)
+	return e.evalVarArgsInChild(node.Right(), node.SetRight)
+}
+
+// evalVarArgsInChild は、式の子ノードの可変ノードの引数を評価して整数に変換する。
+// 子ノードがランダム数値取り出しの場合は、取り出した数値のノードに置き換える。
+//
+// child: 子ノード,
+// setter: 子ノードを置き換える関数。
+func (e *Evaluator) evalVarArgsInChild(child ast.Node, setter nodeSetter) error {
+	if !child.IsPrimaryExpression() {
+		return e.EvalVarArgs(child)
 	}
 
-	if leftErr != nil {
-		return leftErr
+	if !child.IsVariable() {
+		return nil
 	}
 
-	right := node.Right()
-	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
+	if child.Type() == ast.RANDOM_NUMBER_NODE {
+		obj, err := e.Eval(child)
+		if err != nil {
+			return err
 		}
 
+		setter(objectToIntNode(obj))
+
 		return nil
 	}
 
-	return e.EvalVarArgs(right)
+	return e.evalVarArgsOfVariableExpr(child)
 }
-- 
2.43.0


From 6bd45594805880d3824e27aa2f28a9a2d75c2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 03/13] fix: run a parsed command only once, so that a failure
 does not draw dice again

---
 pkg/bcdice/bcdice.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..edfd021 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,22 +74,24 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
+	// 入力全体を構文解析し、失敗した場合は最初の部分のみを構文解析する。
+	// 構文解析に成功したコマンドは1回だけ実行する（失敗してもダイスを振り直さない）。
+	node, parseErr := parser.Parse("input", []byte(command))
+	if parseErr != nil {
+		node, parseErr = parser.Parse("input", []byte(firstPart))
+	}
+	if parseErr != nil {
+		return nil, parseErr
 	}
-	{
-		result, err := b.ExecuteBasicCommand(firstPart)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
 
+	result, err := b.executeBasicNode(node.(ast.Node))
+	if err != nil {
 		return nil, err
 	}
+
+	result.IsSecret = isSecret
+
+	return result, nil
 }
 
 // ExecuteDiceBotCommand は設定されているダイスボットを使用して指定されたコマンドを実行する。
@@ -112,8 +114,13 @@ func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
 		return nil, parseErr
 	}
 
+	return b.executeBasicNode(node.(ast.Node))
+}
+
+// executeBasicNode は構文解析されたBCDiceの基本コマンドを実行する。
+func (b *BCDice) executeBasicNode(node ast.Node) (*command.Result, error) {
 	env := evaluator.NewEnvironment()
 	ev := evaluator.NewEvaluator(b.diceRoller, env)
 
-	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
+	return command.Execute(node, b.DiceBot.GameID(), ev)
 }
-- 
2.43.0


From 45a5e1799a0ec74dad850c55e3e60fbc78827514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 04/13] fix: report the dice drawn for operands when the reroll
 threshold is rejected

---
 pkg/core/command/execute_r_roll_comp.go | 1 +
 pkg/core/command/execute_r_roll_list.go | 1 +
 pkg/core/command/execute_u_roll_comp.go | 1 +
 pkg/core/command/execute_u_roll_expr.go | 1 +
 pkg/core/command/result.go              | 8 ++++++++
 5 files changed, 12 insertions(+)

diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..63cbee1 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -43,6 +43,7 @@ func executeRRollComp(
 	checkRerollThresholdErr :=
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
+		result.recordRolledDice(evaluator.RolledDice())
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..1dab359 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -30,6 +30,7 @@ func executeRRollList(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
+		result.recordRolledDice(evaluator.RolledDice())
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..bd54897 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -38,6 +38,7 @@ func executeURollComp(
 		compareNode.Left().(*ast.URollExpr).URollList,
 	)
 	if checkRerollThresholdErr != nil {
+		result.recordRolledDice(evaluator.RolledDice())
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..6218486 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -32,6 +32,7 @@ func executeURollExpr(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
+		result.recordRolledDice(evaluator.RolledDice())
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/result.go b/pkg/core/command/result.go
index 4fce3e5..1c9acac 100644
--- a/pkg/core/command/result.go
+++ b/pkg/core/command/result.go
@@ -61,3 +61,11 @@ func (r *Result) Message() string {
 func (r *Result) AppendMessagePart(message string) {
 	r.MessageParts = append(r.MessageParts, message)
 }
+
+// recordRolledDice は、振られたダイスがある場合にそれを結果に記録する。
+// ダイスロールの前に処理を打ち切った場合でも、引数の評価で振られたダイスを残すために使う。
+func (r *Result) recordRolledDice(rolledDice []dice.Die) {
+	if len(rolledDice) > 0 {
+		r.RolledDice = rolledDice
+	}
+}
-- 
2.43.0


From 7323f652ca87d224426dbf203a06e82e2abe0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 05/13] fix: leave the REPL loop when its input ends

---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From eb26358ee2cc4b20779a1359a6a91bae1924f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 06/13] fix: reject a die whose value is not one of its faces

---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..550cc39 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -70,6 +70,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: 出目がダイスの面の範囲にありません",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From 5637186c916db01b2e730a2daf223d90a277d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 07/13] fix: round quotients in integer arithmetic, not through
 floating point

---
 pkg/core/evaluator/eval_infix_expression.go | 59 +++++++++++++++++----
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..4c13d96 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,60 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は、端数を四捨五入した商を返す。
+// 端数がちょうど0.5の場合は、0から遠い方に丸める。
+// 浮動小数点数に変換しないため、大きな整数でも誤差が生じない。
+func divideWithRounding(left int, right int) int {
+	quotient := left / right
+	remainder := left % right
+
+	if remainder == 0 {
+		return quotient
+	}
+
+	// 絶対値の大小を、桁あふれしないように負の数で比較する
+	negRemainder := remainder
+	if negRemainder > 0 {
+		negRemainder = -negRemainder
+	}
+
+	negRight := right
+	if negRight > 0 {
+		negRight = -negRight
+	}
+
+	if negRemainder > negRight-negRemainder {
+		return quotient
+	}
+
+	if (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient - 1
+}
+
+// divideWithRoundingUp は、端数を（正の無限大の方向に）切り上げた商を返す。
+func divideWithRoundingUp(left int, right int) int {
+	quotient := left / right
+
+	if left%right != 0 && (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From b4b514580ca33d2d469a3f82c93e708d242b3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 08/13] fix: parse a nested divisor once, so that nested
 divisions do not take exponential time

---
 pkg/core/parser/parser.go     | 101 ++++++++++++++--------------------
 pkg/core/parser/parser.pigeon |   8 +--
 2 files changed, 44 insertions(+), 65 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..aa7942b 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -56,7 +56,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -827,32 +827,25 @@ var g = &grammar{
 													pos:  position{line: 233, col: 52, offset: 5264},
 													name: "IntExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 233, col: 67, offset: 5279},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 233, col: 67, offset: 5279},
+													expr: &charClassMatcher{
+														pos:        position{line: 233, col: 67, offset: 5279},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 233, col: 76, offset: 5288},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 233, col: 77, offset: 5289},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 233, col: 77, offset: 5289},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 233, col: 83, offset: 5295},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 233, col: 77, offset: 5289},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 233, col: 88, offset: 5300},
@@ -1110,32 +1103,25 @@ var g = &grammar{
 													pos:  position{line: 265, col: 56, offset: 6079},
 													name: "DRollExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 265, col: 73, offset: 6096},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 265, col: 73, offset: 6096},
+													expr: &charClassMatcher{
+														pos:        position{line: 265, col: 73, offset: 6096},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 265, col: 82, offset: 6105},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 265, col: 83, offset: 6106},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 265, col: 83, offset: 6106},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 265, col: 89, offset: 6112},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 265, col: 83, offset: 6106},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 265, col: 94, offset: 6117},
@@ -1364,32 +1350,25 @@ var g = &grammar{
 													pos:  position{line: 289, col: 60, offset: 6793},
 													name: "IntRandExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 289, col: 79, offset: 6812},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 289, col: 79, offset: 6812},
+													expr: &charClassMatcher{
+														pos:        position{line: 289, col: 79, offset: 6812},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 289, col: 88, offset: 6821},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 289, col: 89, offset: 6822},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 289, col: 89, offset: 6822},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 289, col: 95, offset: 6828},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 289, col: 89, offset: 6822},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 289, col: 100, offset: 6833},
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..8aeeee8 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -45,7 +45,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -230,7 +230,7 @@ IntExprAdditive <- first:IntExprMultitive rest:(('+' / '-') IntExprMultitive)* {
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i / (('*' / '/') IntExprPrimary))* {
+IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i? / '*' IntExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -262,7 +262,7 @@ DRollExprAdditive <- first:DRollExprMultitive rest:(('+' / '-') DRollExprMultiti
 	return leftAssociativeAdditive(first, rest)
 }
 
-DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i / (('*' / '/') DRollExprPrimary))* {
+DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i? / '*' DRollExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -286,7 +286,7 @@ IntRandExprAdditive <- first:IntRandExprMultitive rest:(('+' / '-') IntRandExprM
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i / (('*' / '/') IntRandExprPrimary))* {
+IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i? / '*' IntRandExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
-- 
2.43.0


From 3b41dd70d872b6c4ace5e6d9e88afc96542fc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 09/13] fix: apply the sign of a compounding roll's modifier to
 its first term only

---
 pkg/core/parser/parser.go     | 26 +++++++++++++++++++++-----
 pkg/core/parser/parser.pigeon | 24 ++++++++++++++++++++----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index aa7942b..b9f243d 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -630,7 +630,7 @@ var g = &grammar{
 						&labeledExpr{
 							pos:   position{line: 187, col: 34, offset: 4123},
 							label: "bonus",
-							expr: &zeroOrOneExpr{
+							expr: &zeroOrMoreExpr{
 								pos: position{line: 187, col: 40, offset: 4129},
 								expr: &seqExpr{
 									pos: position{line: 187, col: 41, offset: 4130},
@@ -652,7 +652,7 @@ var g = &grammar{
 										},
 										&ruleRefExpr{
 											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
+											name: "IntExprMultitive",
 										},
 									},
 								},
@@ -2023,9 +2023,25 @@ func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusSlice) > 0 {
+		firstTerm := toIfaceSlice(bonusSlice[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+
+		// 項が複数ある場合、先頭の符号は最初の項だけにかかる
+		if len(bonusSlice) > 1 {
+			if op == "-" {
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, bonusSlice[1:])
+			if err != nil {
+				return nil, err
+			}
+
+			op = "+"
+			right = sum
+		}
 
 		switch op {
 		case "+":
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 8aeeee8..da40f37 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,13 +184,29 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
+URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprMultitive)* {
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusSlice) > 0 {
+		firstTerm := toIfaceSlice(bonusSlice[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+
+		// 項が複数ある場合、先頭の符号は最初の項だけにかかる
+		if len(bonusSlice) > 1 {
+			if op == "-" {
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, bonusSlice[1:])
+			if err != nil {
+				return nil, err
+			}
+
+			op = "+"
+			right = sum
+		}
 
 		switch op {
 		case "+":
-- 
2.43.0


From 66b7b5a4e281f7fd807d24e1c685f24bc62f6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 10/13] fix: strip the secret mark only once in the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..7a9d072 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From 968ad87f16568e139a7f965dd3b5ef30bff4c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 11/13] fix: report numbers beyond the integer range as errors
 in .roll of the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 7a9d072..32e29f9 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -373,8 +373,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, numErr := strconv.Atoi(matches[1])
+	if numErr != nil {
+		r.printError(numErr)
+		return
+	}
+
+	sides, sidesErr := strconv.Atoi(matches[2])
+	if sidesErr != nil {
+		r.printError(sidesErr)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0


From 53afa04d577691d857ae1cab786250979c5797f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 12/13] fix: take tabs and line breaks for blanks in choices

---
 pkg/core/parser/parser.go     | 6 ++++--
 pkg/core/parser/parser.pigeon | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index b9f243d..c743364 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -212,7 +212,8 @@ var g = &grammar{
 										pos: position{line: 80, col: 45, offset: 1933},
 										expr: &charClassMatcher{
 											pos:        position{line: 80, col: 45, offset: 1933},
-											val:        "[\\pZ]",
+											val:        "[\\pZ\\t\\n\\v\\f\\r\\u0085]",
+											chars:      []rune{'\t', '\n', '\v', '\f', '\r', '\u0085'},
 											classes:    []*unicode.RangeTable{rangeTable("Z")},
 											ignoreCase: false,
 											inverted:   false,
@@ -285,7 +286,8 @@ var g = &grammar{
 							pos: position{line: 98, col: 15, offset: 2254},
 							expr: &charClassMatcher{
 								pos:        position{line: 98, col: 15, offset: 2254},
-								val:        "[\\pZ]",
+								val:        "[\\pZ\\t\\n\\v\\f\\r\\u0085]",
+								chars:      []rune{'\t', '\n', '\v', '\f', '\r', '\u0085'},
 								classes:    []*unicode.RangeTable{rangeTable("Z")},
 								ignoreCase: false,
 								inverted:   false,
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index da40f37..995e711 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -77,7 +77,7 @@ CommandWithExpression <- n:(BRollComp / BRollList / RRollComp / RRollList / URol
 	return n, nil
 }
 
-Choice <- "CHOICE["i items:ChoiceItems (',' [\pZ]*)? ']' {
+Choice <- "CHOICE["i items:ChoiceItems (',' [\pZ\t\n\v\f\r\u0085]*)? ']' {
 	return items, nil
 }
 
@@ -95,7 +95,7 @@ ChoiceItems <- first:ChoiceItem rest:(',' ChoiceItem)* {
 	return choice, nil
 }
 
-ChoiceItem <- [\pZ]* s:ChoiceItemChars {
+ChoiceItem <- [\pZ\t\n\v\f\r\u0085]* s:ChoiceItemChars {
 	return s, nil
 }
 
-- 
2.43.0


From 41c116000acf108b8e39f651cf894c89e739a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 13/13] fix: keep the bytes behind the secret mark as they are

---
 pkg/core/util/secret_roll.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/core/util/secret_roll.go b/pkg/core/util/secret_roll.go
index 281e716..2e2aa77 100644
--- a/pkg/core/util/secret_roll.go
+++ b/pkg/core/util/secret_roll.go
@@ -10,11 +10,10 @@ func CheckIfInputMayBeASecretRoll(input string) (string, bool) {
 		return "", false
 	}
 
-	inputRunes := []rune(input)
-
-	switch inputRunes[0] {
+	switch input[0] {
 	case 'S', 's':
-		return string(inputRunes[1:len(inputRunes)]), true
+		// マーク以外はバイト列としてそのまま残す
+		return input[1:], true
 	default:
 		return input, false
 	}
-- 
2.43.0

