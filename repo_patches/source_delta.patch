From 03a7a31ffb4ea000da85bd666d62107c5940fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 01/18] fix: evaluate the operands of a sum roll that is the
 whole left side of a comparison

---
 pkg/core/evaluator/eval_var_args.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..517ffc3 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,17 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+
+	if left.IsPrimaryExpression() {
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From cba17b0edd7a3ada3df8415582306886bd57a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 02/18] fix: evaluate embedded random numbers that stand as
 terms of a sum roll

---
 pkg/core/evaluator/eval_var_args.go | 58 ++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 517ffc3..addea9d 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -43,6 +43,28 @@ func (e *Evaluator) evalVarArgsOfVariableExpr(node ast.Node) error {
 	return fmt.Errorf("evalVarArgsOfVariableExpr not implemented: %s", node.Type())
 }
 
+// evalVarArgsOfPrimaryExpr は一次式が可変ノードならば、その引数を評価して整数に変換する。
+//
+// ランダム数値取り出しは、それ自体を整数に変換し、setterで置き換える。
+func (e *Evaluator) evalVarArgsOfPrimaryExpr(node ast.Node, setter nodeSetter) error {
+	if !node.IsVariable() {
+		return nil
+	}
+
+	if node.Type() == ast.RANDOM_NUMBER_NODE {
+		obj, err := e.Eval(node)
+		if err != nil {
+			return err
+		}
+
+		setter(objectToIntNode(obj))
+
+		return nil
+	}
+
+	return e.evalVarArgsOfVariableExpr(node)
+}
+
 // evalVarArgsOfRoll はダイスロールノードの引数を評価して整数に変換する。
 func (e *Evaluator) evalVarArgsOfRoll(node ast.InfixExpression) error {
 	leftObj, leftErr := e.Eval(node.Left())
@@ -145,11 +167,9 @@ func (e *Evaluator) evalVarArgsInURollExpr(node *ast.URollExpr) error {
 func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 	expr := node.Expression
 	if expr.IsPrimaryExpression() {
-		if expr.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(expr)
-		}
-
-		return nil
+		return e.evalVarArgsOfPrimaryExpr(expr, func(newNode ast.Node) {
+			node.Expression = newNode
+		})
 	}
 
 	return e.EvalVarArgs(expr)
@@ -162,9 +182,9 @@ func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	var leftEvalErr error
 
 	if left.IsPrimaryExpression() {
-		if left.IsVariable() {
-			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
-		}
+		leftEvalErr = e.evalVarArgsOfPrimaryExpr(left, func(newNode ast.Node) {
+			node.SetLeft(newNode)
+		})
 	} else {
 		leftEvalErr = e.EvalVarArgs(left)
 	}
@@ -188,11 +208,9 @@ func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 func (e *Evaluator) evalVarArgsInPrefixExpression(node ast.PrefixExpression) error {
 	right := node.Right()
 	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
-		}
-
-		return nil
+		return e.evalVarArgsOfPrimaryExpr(right, func(newNode ast.Node) {
+			node.SetRight(newNode)
+		})
 	}
 
 	return e.EvalVarArgs(right)
@@ -204,9 +222,9 @@ func (e *Evaluator) evalVarArgsInInfixExpression(node ast.InfixExpression) error
 	var leftErr error
 
 	if left.IsPrimaryExpression() {
-		if left.IsVariable() {
-			leftErr = e.evalVarArgsOfVariableExpr(left)
-		}
+		leftErr = e.evalVarArgsOfPrimaryExpr(left, func(newNode ast.Node) {
+			node.SetLeft(newNode)
+		})
 	} else {
 		leftErr = e.EvalVarArgs(left)
 	}
@@ -217,11 +235,9 @@ func (e *Evaluator) evalVarArgsInInfixExpression(node ast.InfixExpression) error
 
 	right := node.Right()
 	if right.IsPrimaryExpression() {
-		if right.IsVariable() {
-			return e.evalVarArgsOfVariableExpr(right)
-		}
-
-		return nil
+		return e.evalVarArgsOfPrimaryExpr(right, func(newNode ast.Node) {
+			node.SetRight(newNode)
+		})
 	}
 
 	return e.EvalVarArgs(right)
-- 
2.43.0


From 80fcc98c1896f8893966c807203bbb23b038ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 03/18] fix: round divisions exactly instead of through
 floating point

---
 pkg/core/evaluator/eval_infix_expression.go | 58 +++++++++++++++++----
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..5a57615 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,59 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は除算を行い、小数点以下を四捨五入する。
+//
+// 浮動小数点数を経由せず、すべての整数について正確な結果を返す。
+func divideWithRounding(left int, right int) int {
+	quotient := left / right
+	remainder := left % right
+
+	// 符号反転でのオーバーフローを避けるため、負の数で絶対値を比較する
+	negRemainder := remainder
+	if negRemainder > 0 {
+		negRemainder = -negRemainder
+	}
+
+	negDivisor := right
+	if negDivisor > 0 {
+		negDivisor = -negDivisor
+	}
+
+	if remainder == 0 || negRemainder > negDivisor-negRemainder {
+		return quotient
+	}
+
+	if (remainder < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient - 1
+}
+
+// divideWithRoundingUp は除算を行い、小数点以下を切り上げる。
+//
+// 浮動小数点数を経由せず、すべての整数について正確な結果を返す。
+func divideWithRoundingUp(left int, right int) int {
+	quotient := left / right
+	remainder := left % right
+
+	if remainder != 0 && (remainder < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From c8d72bac405d102c543d774f677c66e64ccfe286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 04/18] fix: refuse absurdly large dice counts instead of
 exhausting memory

---
 pkg/core/dice/roller/roller.go         | 13 ++++++++++++-
 pkg/core/evaluator/eval_u_roll_expr.go |  9 +++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..5f77a28 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -10,6 +10,9 @@ import (
 	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
 )
 
+// MaxNumDice は一度に振ることができるダイス数の上限。
+const MaxNumDice = 1000
+
 // ダイスローラーを表す構造体。
 type DiceRoller struct {
 	// feederが実際にダイスを供給する
@@ -32,7 +35,7 @@ func (dr *DiceRoller) DieFeeder() feeder.DieFeeder {
 
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 //
-// num、sidesともに正の整数でなければならない。
+// num、sidesともに正の整数でなければならない。また、numはMaxNumDice以下でなければならない。
 // この条件が満たされていなかった場合は、エラーを返す。
 func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 	if sides < 1 {
@@ -51,6 +54,14 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 		)
 	}
 
+	if num > MaxNumDice {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	// 結果のスライスの領域をnum個分確保する
 	rolledDice := make([]dice.Die, 0, num)
 
diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index 400600c..9fb7816 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
+	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
 
@@ -100,6 +101,14 @@ func (e *Evaluator) evalCompoundingRoll(
 		)
 	}
 
+	if numVal > roller.MaxNumDice {
+		return nil, fmt.Errorf(
+			"evalCompoundingRoll(num: %d, sides: %d): 振るダイス数が多すぎます",
+			numVal,
+			sidesVal,
+		)
+	}
+
 	valueGroups := make([]object.Object, 0, numVal)
 	for i := 0; i < numVal; i++ {
 		valueGroup := []object.Object{}
-- 
2.43.0


From 752f4afa94dfdf6ede8e04770bd4e85f62eaa18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 05/18] fix: refuse dice whose value is not a face of the die

---
 pkg/core/dice/roller/roller.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index 5f77a28..4592721 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -81,6 +81,16 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 			)
 		}
 
+		if d.Value < 1 || d.Value > sides {
+			return nil, fmt.Errorf(
+				"RollDice(num: %d, sides: %d) -> %d/%d: ダイスの出目が範囲外です",
+				num,
+				sides,
+				d.Value,
+				d.Sides,
+			)
+		}
+
 		rolledDice = append(rolledDice, d)
 	}
 
-- 
2.43.0


From 744715d429e5c5e43db192dc6e880dbfbc75bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 06/18] fix: refuse integer literals that do not fit instead of
 reading another number

---
 pkg/core/parser/parser.go     | 6 +++---
 pkg/core/parser/parser.pigeon | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..3eb6a17 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -2346,10 +2346,10 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	// 整数が大きすぎるときは構文解析エラーにする
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 func (p *parser) callonInteger1() (interface{}, error) {
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..dd1c302 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -356,10 +356,10 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	// 整数が大きすぎるときは構文解析エラーにする
+	value, err := strconv.Atoi(s)
 
-	return ast.NewInt(value), nil
+	return ast.NewInt(value), err
 }
 
 CompareOp <- "=" / "<>" / "<=" / "<" / ">=" / ">"
-- 
2.43.0


From 5fce6c3f87e2a6182d0486c1aaf88425d159f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 07/18] fix: end the REPL at end of input

---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From fce8b4011f1c3844a790e93f0bebb363b48102e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 08/18] fix: apply the leading minus of a compounding roll's
 modifier to its first term only

---
 pkg/core/parser/parser.go     | 43 +++++++++++++++++++++++++++++++++--
 pkg/core/parser/parser.pigeon | 16 +++++++++++--
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 3eb6a17..7990160 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -652,7 +652,34 @@ var g = &grammar{
 										},
 										&ruleRefExpr{
 											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
+											name: "IntExprMultitive",
+										},
+										&zeroOrMoreExpr{
+											pos: position{line: 187, col: 70, offset: 4159},
+											expr: &seqExpr{
+												pos: position{line: 187, col: 71, offset: 4160},
+												exprs: []interface{}{
+													&choiceExpr{
+														pos: position{line: 187, col: 72, offset: 4161},
+														alternatives: []interface{}{
+															&litMatcher{
+																pos:        position{line: 187, col: 72, offset: 4161},
+																val:        "+",
+																ignoreCase: false,
+															},
+															&litMatcher{
+																pos:        position{line: 187, col: 78, offset: 4167},
+																val:        "-",
+																ignoreCase: false,
+															},
+														},
+													},
+													&ruleRefExpr{
+														pos:  position{line: 187, col: 83, offset: 4172},
+														name: "IntExprMultitive",
+													},
+												},
+											},
 										},
 									},
 								},
@@ -2046,7 +2073,19 @@ func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error
 	var bonusNode ast.InfixExpression = nil
 	if bonusSlice != nil {
 		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+		first := bonusSlice[1].(ast.Node)
+		rest := toIfaceSlice(bonusSlice[2])
+
+		if op == "-" && len(rest) > 0 {
+			// 先頭の "-" は最初の項だけに掛かる
+			first = ast.NewUnaryMinus(first)
+			op = "+"
+		}
+
+		right, err := leftAssociativeAdditive(first, rest)
+		if err != nil {
+			return nil, err
+		}
 
 		switch op {
 		case "+":
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index dd1c302..853c95c 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,13 +184,25 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
+URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprMultitive (('+' / '-') IntExprMultitive)*)? {
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
 	if bonusSlice != nil {
 		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+		first := bonusSlice[1].(ast.Node)
+		rest := toIfaceSlice(bonusSlice[2])
+
+		if op == "-" && len(rest) > 0 {
+			// 先頭の "-" は最初の項だけに掛かる
+			first = ast.NewUnaryMinus(first)
+			op = "+"
+		}
+
+		right, err := leftAssociativeAdditive(first, rest)
+		if err != nil {
+			return nil, err
+		}
 
 		switch op {
 		case "+":
-- 
2.43.0


From 3e57b3bfe0657e9db8dae833b752df86eef69481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 09/18] fix: do not roll again after a command failed while it
 was evaluated

---
 pkg/bcdice/bcdice.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..3a7a84d 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,22 +74,24 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
+	// 入力全体がコマンドでなければ、最初の部分だけをコマンドとして扱う。
+	// 評価中のエラーの後で、ダイスを振り直してしまうことがないように、実行は一度だけ行う。
+	node, parseErr := parser.Parse("input", []byte(command))
+	if parseErr != nil {
+		node, parseErr = parser.Parse("input", []byte(firstPart))
+	}
+	if parseErr != nil {
+		return nil, parseErr
 	}
-	{
-		result, err := b.ExecuteBasicCommand(firstPart)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
 
+	result, err := b.executeNode(node.(ast.Node))
+	if err != nil {
 		return nil, err
 	}
+
+	result.IsSecret = isSecret
+
+	return result, nil
 }
 
 // ExecuteDiceBotCommand は設定されているダイスボットを使用して指定されたコマンドを実行する。
@@ -112,8 +114,13 @@ func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
 		return nil, parseErr
 	}
 
+	return b.executeNode(node.(ast.Node))
+}
+
+// executeNode は構文解析で得られたコマンドのノードを実行する。
+func (b *BCDice) executeNode(node ast.Node) (*command.Result, error) {
 	env := evaluator.NewEnvironment()
 	ev := evaluator.NewEvaluator(b.diceRoller, env)
 
-	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
+	return command.Execute(node, b.DiceBot.GameID(), ev)
 }
-- 
2.43.0


From 436a304e99a48d759d5ddf23cc94739886eae9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 10/18] fix: keep the bytes of a secret command as they are

---
 pkg/core/util/secret_roll.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/core/util/secret_roll.go b/pkg/core/util/secret_roll.go
index 281e716..9012c05 100644
--- a/pkg/core/util/secret_roll.go
+++ b/pkg/core/util/secret_roll.go
@@ -10,11 +10,9 @@ func CheckIfInputMayBeASecretRoll(input string) (string, bool) {
 		return "", false
 	}
 
-	inputRunes := []rune(input)
-
-	switch inputRunes[0] {
+	switch input[0] {
 	case 'S', 's':
-		return string(inputRunes[1:len(inputRunes)]), true
+		return input[1:], true
 	default:
 		return input, false
 	}
-- 
2.43.0


From acfb510a352691cebba3292d36754933e35d7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 11/18] fix: bound the work of parsing one command

A deeply nested or repeatedly backtracking text exhausted the stack or kept the parser busy for ever.
---
 cmd/GoBCDiceREPL/repl/repl.go    |  2 +-
 pkg/bcdice/bcdice.go             |  6 +++---
 pkg/core/parser/parse_command.go | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)
 create mode 100644 pkg/core/parser/parse_command.go

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..c39a0c7 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -304,7 +304,7 @@ func printSExp(r *REPL, c *Command, input string) {
 	}
 
 	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	parseResult, err := parser.Parse("REPL", []byte(command))
+	parseResult, err := parser.ParseCommand("REPL", []byte(command))
 	if err != nil {
 		r.printError(err)
 		return
diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index 3a7a84d..23eae36 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -76,9 +76,9 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 
 	// 入力全体がコマンドでなければ、最初の部分だけをコマンドとして扱う。
 	// 評価中のエラーの後で、ダイスを振り直してしまうことがないように、実行は一度だけ行う。
-	node, parseErr := parser.Parse("input", []byte(command))
+	node, parseErr := parser.ParseCommand("input", []byte(command))
 	if parseErr != nil {
-		node, parseErr = parser.Parse("input", []byte(firstPart))
+		node, parseErr = parser.ParseCommand("input", []byte(firstPart))
 	}
 	if parseErr != nil {
 		return nil, parseErr
@@ -109,7 +109,7 @@ func (b *BCDice) ExecuteDiceBotCommand(c string) (*command.Result, error) {
 
 // ExecuteBasicCommand はBCDiceの基本コマンドを実行する。
 func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
-	node, parseErr := parser.Parse("input", []byte(c))
+	node, parseErr := parser.ParseCommand("input", []byte(c))
 	if parseErr != nil {
 		return nil, parseErr
 	}
diff --git a/pkg/core/parser/parse_command.go b/pkg/core/parser/parse_command.go
new file mode 100644
index 0000000..c891d34
--- /dev/null
+++ b/pkg/core/parser/parse_command.go
@@ -0,0 +1,14 @@
+package parser
+
+// maxExpressions は、1つのコマンドの構文解析で処理する式の数の上限。
+//
+// 深い入れ子によるスタックの枯渇や、バックトラックの繰り返しで
+// 構文解析が終わらなくなることを防ぐ。通常のコマンドでは数百から数千程度である。
+const maxExpressions = 1000000
+
+// ParseCommand は、ユーザーが入力したコマンドを構文解析する。
+//
+// 解析に必要な処理が多すぎる入力に対しては、エラーを返す。
+func ParseCommand(filename string, b []byte) (interface{}, error) {
+	return Parse(filename, b, MaxExpressions(maxExpressions))
+}
-- 
2.43.0


From eceadc350383bfd4ce2cf48cadedfbd55e3d73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 12/18] fix: refuse dice notation whose numbers do not fit

---
 pkg/dicebot/testing/testcase.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/dicebot/testing/testcase.go b/pkg/dicebot/testing/testcase.go
index 051827a..e385830 100644
--- a/pkg/dicebot/testing/testcase.go
+++ b/pkg/dicebot/testing/testcase.go
@@ -73,9 +73,13 @@ func ParseDice(source string) ([]dice.Die, error) {
 			return nil, fmt.Errorf("ParseDice: #%d: %q: ダイス構文エラー", i+1, diceStr)
 		}
 
-		Value, _ := strconv.Atoi(matches[1])
-		Sides, _ := strconv.Atoi(matches[2])
-		rolledDice = append(rolledDice, dice.Die{Value, Sides})
+		value, valueErr := strconv.Atoi(matches[1])
+		sides, sidesErr := strconv.Atoi(matches[2])
+		if valueErr != nil || sidesErr != nil {
+			return nil, fmt.Errorf("ParseDice: #%d: %q: 数値が大きすぎます", i+1, diceStr)
+		}
+
+		rolledDice = append(rolledDice, dice.Die{Value: value, Sides: sides})
 	}
 
 	return rolledDice, nil
-- 
2.43.0


From 3ca5f243cae56ddf902eccb12653acc29c5646c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 13/18] fix: refuse .roll arguments that do not fit instead of
 rolling other dice

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index c39a0c7..e2e2634 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -374,8 +374,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, numErr := strconv.Atoi(matches[1])
+	if numErr != nil {
+		r.printError(numErr)
+		return
+	}
+
+	sides, sidesErr := strconv.Atoi(matches[2])
+	if sidesErr != nil {
+		r.printError(sidesErr)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0


From 412525b751327127ffcd117a090b2202506a4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 14/18] fix: ignore choice items of white space whatever the
 white space is

The parser skipped Unicode separators only while items are trimmed of all
white space, so an item of tabs became an empty item.
---
 pkg/core/parser/parser.go     | 6 ++++--
 pkg/core/parser/parser.pigeon | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 7990160..cb4941f 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -212,7 +212,8 @@ var g = &grammar{
 										pos: position{line: 80, col: 45, offset: 1933},
 										expr: &charClassMatcher{
 											pos:        position{line: 80, col: 45, offset: 1933},
-											val:        "[\\pZ]",
+											val:        "[\\pZ\\t\\n\\v\\f\\r\\u0085]",
+											chars:      []rune{'\t', '\n', '\v', '\f', '\r', '\u0085'},
 											classes:    []*unicode.RangeTable{rangeTable("Z")},
 											ignoreCase: false,
 											inverted:   false,
@@ -285,7 +286,8 @@ var g = &grammar{
 							pos: position{line: 98, col: 15, offset: 2254},
 							expr: &charClassMatcher{
 								pos:        position{line: 98, col: 15, offset: 2254},
-								val:        "[\\pZ]",
+								val:        "[\\pZ\\t\\n\\v\\f\\r\\u0085]",
+								chars:      []rune{'\t', '\n', '\v', '\f', '\r', '\u0085'},
 								classes:    []*unicode.RangeTable{rangeTable("Z")},
 								ignoreCase: false,
 								inverted:   false,
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 853c95c..d380f74 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -77,7 +77,7 @@ CommandWithExpression <- n:(BRollComp / BRollList / RRollComp / RRollList / URol
 	return n, nil
 }
 
-Choice <- "CHOICE["i items:ChoiceItems (',' [\pZ]*)? ']' {
+Choice <- "CHOICE["i items:ChoiceItems (',' [\pZ\t\n\v\f\r\u0085]*)? ']' {
 	return items, nil
 }
 
@@ -95,7 +95,7 @@ ChoiceItems <- first:ChoiceItem rest:(',' ChoiceItem)* {
 	return choice, nil
 }
 
-ChoiceItem <- [\pZ]* s:ChoiceItemChars {
+ChoiceItem <- [\pZ\t\n\v\f\r\u0085]* s:ChoiceItemChars {
 	return s, nil
 }
 
-- 
2.43.0


From 4e07d143a5483dd6c071897d17359cf43854a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 15/18] fix: show a negative operand of a roll in parentheses

A roll operand reads as a negative number only in parentheses, but
(0-1)R6[1] was shown as -1R6[1], which is no command.
---
 pkg/core/notation/notation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/notation/notation.go b/pkg/core/notation/notation.go
index 1511922..6767aee 100644
--- a/pkg/core/notation/notation.go
+++ b/pkg/core/notation/notation.go
@@ -269,6 +269,11 @@ func parenthesizeChildOfInfixExpression(
 				return "", err
 			}
 
+			// ロールの被演算子として書ける負の整数は、括弧で囲まれたもののみ
+			if i, isInt := child.(*ast.Int); isInt && i.Value < 0 && parent.Precedence() == ast.PREC_ROLL {
+				return Parenthesize(infixNotationOfChild), nil
+			}
+
 			return infixNotationOfChild, nil
 		}
 	}
-- 
2.43.0


From 78394302a3d14d914855e7ebcd9670b7b5ba745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 16/18] Revert "fix: refuse dice notation whose numbers do not
 fit"

This reverts commit eceadc350383bfd4ce2cf48cadedfbd55e3d73d0.
---
 pkg/dicebot/testing/testcase.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkg/dicebot/testing/testcase.go b/pkg/dicebot/testing/testcase.go
index e385830..051827a 100644
--- a/pkg/dicebot/testing/testcase.go
+++ b/pkg/dicebot/testing/testcase.go
@@ -73,13 +73,9 @@ func ParseDice(source string) ([]dice.Die, error) {
 			return nil, fmt.Errorf("ParseDice: #%d: %q: ダイス構文エラー", i+1, diceStr)
 		}
 
-		value, valueErr := strconv.Atoi(matches[1])
-		sides, sidesErr := strconv.Atoi(matches[2])
-		if valueErr != nil || sidesErr != nil {
-			return nil, fmt.Errorf("ParseDice: #%d: %q: 数値が大きすぎます", i+1, diceStr)
-		}
-
-		rolledDice = append(rolledDice, dice.Die{Value: value, Sides: sides})
+		Value, _ := strconv.Atoi(matches[1])
+		Sides, _ := strconv.Atoi(matches[2])
+		rolledDice = append(rolledDice, dice.Die{Value, Sides})
 	}
 
 	return rolledDice, nil
-- 
2.43.0


From 88e3d90d1a59b596413b3a7c045564e482750af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 17/18] fix: leave the secret marker to the command in the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index e2e2634..88a3c96 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From d764b2dfd02874dd96e1e46c84c395099039b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 18/18] fix: record the dice of embedded random numbers when a
 roll is refused

---
 pkg/core/command/command.go             | 13 +++++++++++++
 pkg/core/command/execute_r_roll_comp.go |  3 +--
 pkg/core/command/execute_r_roll_list.go |  3 +--
 pkg/core/command/execute_u_roll_comp.go |  3 +--
 pkg/core/command/execute_u_roll_expr.go |  3 +--
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkg/core/command/command.go b/pkg/core/command/command.go
index 63d8ffd..8725cdd 100644
--- a/pkg/core/command/command.go
+++ b/pkg/core/command/command.go
@@ -79,3 +79,16 @@ func evalVarArgs(node ast.Node, evaluator *evaluator.Evaluator) (string, error)
 
 	return infixNotation, nil
 }
+
+// refuse は、ロールを行わない理由をresultのメッセージに加えて返す。
+//
+// 引数に埋め込まれたランダム数値の取り出しで既にダイスが振られていた場合は、それも記録する。
+func refuse(result *Result, reason error, evaluator *evaluator.Evaluator) *Result {
+	if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+		result.RolledDice = rolledDice
+	}
+
+	result.AppendMessagePart(reason.Error())
+
+	return result
+}
diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..5e97ea9 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -43,8 +43,7 @@ func executeRRollComp(
 	checkRerollThresholdErr :=
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
-		result.AppendMessagePart(checkRerollThresholdErr.Error())
-		return result, nil
+		return refuse(result, checkRerollThresholdErr, evaluator), nil
 	}
 
 	// 変換された抽象構文木を評価する
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..74f5fc7 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -30,8 +30,7 @@ func executeRRollList(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
-		result.AppendMessagePart(checkRerollThresholdErr.Error())
-		return result, nil
+		return refuse(result, checkRerollThresholdErr, evaluator), nil
 	}
 
 	// 変換された抽象構文木を評価する
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..6c7d27c 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -38,8 +38,7 @@ func executeURollComp(
 		compareNode.Left().(*ast.URollExpr).URollList,
 	)
 	if checkRerollThresholdErr != nil {
-		result.AppendMessagePart(checkRerollThresholdErr.Error())
-		return result, nil
+		return refuse(result, checkRerollThresholdErr, evaluator), nil
 	}
 
 	// 変換された抽象構文木を評価する
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..6418440 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -32,8 +32,7 @@ func executeURollExpr(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
-		result.AppendMessagePart(checkRerollThresholdErr.Error())
-		return result, nil
+		return refuse(result, checkRerollThresholdErr, evaluator), nil
 	}
 
 	// 変換された抽象構文木を評価する
-- 
2.43.0

