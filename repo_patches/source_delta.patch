From 15e34b079e6f007cc6cc65f027284e7db1d1f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:12 +0000
Subject: [PATCH 01/18] fix: do not crash on rules that cannot be prepared

Preparing a rule on first use could fail (for example on an undefined
predefined string) and the nil prepared copy was then dereferenced.
Such a rule now does not apply to any message. The prepared copy is
guarded by a lock so that rules can be shared between goroutines.
---
 MAPL_engine/check.go             | 22 +++++++-----
 MAPL_engine/rule_mongo_plugin.go |  9 ++---
 MAPL_engine/rules_load.go        | 60 +++++++++++++++++++++++++++-----
 3 files changed, 71 insertions(+), 20 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..7801c1f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -65,7 +65,10 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 
 	} else { // used only for debugging
 
-		for in_i, in_rule := range rules.Rules {
+		for in_i := range rules.Rules {
+			preparedRuleLock.RLock()
+			in_rule := rules.Rules[in_i]
+			preparedRuleLock.RUnlock()
 			results[in_i], checkExtraData[in_i] = CheckOneRule(message, &in_rule)
 			if desc, ok := in_rule.Metadata["description"]; ok {
 				ruleDescriptions[in_i] = desc
@@ -100,10 +103,11 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 // CheckOneRules gives the result of testing the message attributes with of one rule
 func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
 
-	if !ruleOriginal.ruleAlreadyPrepared {
-		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+	rule, err := ruleOriginal.getOrCreatePreparedRule() // the prepared rule is the one used below!
+	if err != nil {
+		log.Printf("can't prepare rule: %v", err)
+		return DEFAULT, []map[string]interface{}{} // a rule which can't be prepared does not apply
 	}
-	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
 	// compare basic message attributes:
 
@@ -247,12 +251,14 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 // testConditions tests the conditions of the rule with the message attributes
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
-	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+	preparedRule, err := rule.getOrCreatePreparedRule()
+	if err != nil {
+		log.Printf("can't prepare rule: %v", err)
+		return false, []map[string]interface{}{}
 	}
 
-	if rule.preparedRule.Conditions.ConditionsTree != nil {
-		return rule.preparedRule.Conditions.ConditionsTree.Eval(message)
+	if preparedRule.Conditions.ConditionsTree != nil {
+		return preparedRule.Conditions.ConditionsTree.Eval(message)
 	}
 	return false, []map[string]interface{}{}
 
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..f21c7a3 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -16,15 +16,16 @@ type MaplToMongoResult struct {
 
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
-	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+	preparedRule, err := rule.getOrCreatePreparedRule()
+	if err != nil {
+		return MaplToMongoResult{"", nil}, err
 	}
 
-	if rule.preparedRule.Conditions.ConditionsTree == nil {
+	if preparedRule.Conditions.ConditionsTree == nil {
 		return MaplToMongoResult{QueryTypeSimple, bson.M{}}, nil
 	}
 
-	query, added_pipeline, err := rule.preparedRule.Conditions.ConditionsTree.ToMongoQuery(parentField, "", 0)
+	query, added_pipeline, err := preparedRule.Conditions.ConditionsTree.ToMongoQuery(parentField, "", 0)
 	if err != nil {
 
 		return MaplToMongoResult{"", nil}, err
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..da59faa 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -11,10 +11,14 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 )
 
 var GlobalPredefinedStringsAndLists PredefinedStringsAndLists
 
+// preparedRuleLock guards the prepared copy of rules which may be shared between goroutines
+var preparedRuleLock sync.RWMutex
+
 func SetGlobalPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 	validatedStringsAndlists, err := validatePredefinedString(stringsAndlists)
 	if err != nil {
@@ -63,26 +67,66 @@ func YamlReadRulesFromFile(filename string) (Rules, error) {
 
 func (rule *Rule) SetPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 
+	preparedRule, err := rule.createPreparedRule(stringsAndlists)
+
+	preparedRuleLock.Lock()
+	defer preparedRuleLock.Unlock()
+
 	rule.ruleAlreadyPrepared = false
+	rule.preparedRule = nil // a rule which can't be prepared must not be tested with a previously prepared copy
+	rule.predefinedStringsAndLists = stringsAndlists
+	if err != nil {
+		return err
+	}
+
+	rule.preparedRule = preparedRule
+	rule.ruleAlreadyPrepared = true
+
+	return nil
+}
+
+// createPreparedRule returns a prepared copy of the rule. The rule itself is not changed.
+func (rule *Rule) createPreparedRule(stringsAndlists PredefinedStringsAndLists) (*Rule, error) {
 
 	var ruleCopy Rule
 	err := deepcopy.Copy(&ruleCopy, rule)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	rule.predefinedStringsAndLists = stringsAndlists
-
-	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, rule.predefinedStringsAndLists)
+	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, stringsAndlists)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	ruleCopy.ruleAlreadyPrepared = true
-	rule.preparedRule = &ruleCopy
-	rule.ruleAlreadyPrepared = true
+	return &ruleCopy, nil
+}
 
-	return nil
+// getOrCreatePreparedRule returns the prepared copy of the rule.
+// The global predefined strings and lists are used if the rule was not prepared yet.
+func (rule *Rule) getOrCreatePreparedRule() (*Rule, error) {
+
+	preparedRuleLock.RLock()
+	preparedRule, alreadyPrepared := rule.preparedRule, rule.ruleAlreadyPrepared
+	preparedRuleLock.RUnlock()
+	if alreadyPrepared {
+		return preparedRule, nil
+	}
+
+	preparedRule, err := rule.createPreparedRule(GlobalPredefinedStringsAndLists) // use the global if not set already
+	if err != nil {
+		return nil, err
+	}
+
+	preparedRuleLock.Lock()
+	defer preparedRuleLock.Unlock()
+	if !rule.ruleAlreadyPrepared {
+		rule.predefinedStringsAndLists = GlobalPredefinedStringsAndLists
+		rule.preparedRule = preparedRule
+		rule.ruleAlreadyPrepared = true
+	}
+	return rule.preparedRule, nil
 }
 
 func (rule *Rule) GetPreparedRule() *Rule { // used in unit tests
-- 
2.43.0


From 4782152da2407e16b60f8b56ac58bcc5856beb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:13 +0000
Subject: [PATCH 02/18] fix: do not write to the message while testing ANY and
 ALL conditions

The current array element was stored in the caller's message, which is
a data race when one message is checked by several goroutines.
---
 MAPL_engine/conditions_tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..fcde248 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -284,6 +284,8 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 }
 
 func (a *Any) Eval(message *MessageAttributes) (bool, []map[string]interface{}) { // to-do: return errors
+	messageCopy := *message // the relative element is set on a copy so that the message itself can be shared
+	message = &messageCopy
 	if message.RequestRawInterface != nil && a.PreparedJsonpathQuery != nil {
 		return evalAnyRawInterface(a, message)
 	} else {
@@ -495,6 +497,8 @@ func (a *All) MarshalJSON() ([]byte, error) {
 }
 
 func (a *All) Eval(message *MessageAttributes) (bool, []map[string]interface{}) {
+	messageCopy := *message // the relative element is set on a copy so that the message itself can be shared
+	message = &messageCopy
 	if message.RequestRawInterface != nil && a.PreparedJsonpathQuery != nil {
 		return evalAllRawInterface(a, message)
 	} else {
-- 
2.43.0


From 9252141164d1916ec68813bb7028c6af68e0e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:10 +0000
Subject: [PATCH 03/18] fix: compare numbers and lists in conditions
 consistently

- comparing a number with a non-number value no longer dereferences nil
- a message without encryption version no longer crashes the condition
- NE behaves like NEQ, lower case in/nin behave like IN/NIN
- large numbers are not turned into exponent notation
---
 MAPL_engine/check.go               | 22 +++++++++++++++++-----
 MAPL_engine/definitions_rule.go    |  4 ++++
 MAPL_engine/rules_load.go          |  9 +++++----
 MAPL_engine/validate_conditions.go |  2 +-
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 7801c1f..c3a08b4 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -286,7 +286,11 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 
 	case ("payloadSize"):
 		valueToCompareInt = message.RequestSize
-		result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		if c.ValueInt != nil {
+			result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		} else {
+			result = compareFloatFunc(float64(valueToCompareInt), c.Method, c.ValueFloat)
+		}
 
 	case ("requestUseragent"):
 		valueToCompareString = message.RequestUseragent
@@ -309,6 +313,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{} // no encryption version to compare with
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
@@ -572,8 +579,8 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueToCompareFloat, err := strconv.ParseFloat(valueStringWithoutUnits, 64)
 		valueToCompareFloat = valueToCompareFloat * factor
 
-		if err != nil {
-			if method == "EQ" || method == "NEQ" {
+		if err != nil || c.ValueFloat == nil {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
 				log.Println("can't parse jsonpath value [float]")
@@ -636,6 +643,8 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
 		valueToCompareString = string(jsonBytes)
+	case float64: // avoid exponents which are not in the original document
+		valueToCompareString = strconv.FormatFloat(valueToCompareInterface.(float64), 'f', -1, 64)
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
@@ -667,7 +676,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
-				if method == "NEQ" {
+				if method == "NEQ" || method == "NE" {
 					return true
 				}
 				return false
@@ -677,7 +686,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		}
 
 		if !flagCompareToNumber {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				//return compareStringWithWildcardsFunc(valueToCompareString, c.Method, c.ValueStringRegex) // compare strings with wildcards
 				return compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
@@ -814,6 +823,9 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the value in the rule is not a number
+		return method == "NEQ" || method == "neq" || method == "ne" || method == "NE"
+	}
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..423f51c 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -177,6 +178,9 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
+			if valFloat, ok := val.(float64); ok { // numbers in json are read as float64. avoid exponents
+				c.Value = strconv.FormatFloat(valFloat, 'f', -1, 64)
+			}
 
 		case "returnValueJsonpath", "ReturnValueJsonpath":
 			c.ReturnValueJsonpath = make(map[string]string)
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index da59faa..41f8208 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -312,7 +312,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if slice.ContainsString(regexSlice, c.Method) {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
@@ -374,15 +374,16 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
-	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
+	method := strings.ToUpper(condition.Method)
+	if method == "IN" || method == "NIN" || method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
-		if condition.Method == "IN" || condition.Method == "IS" {
+		if method == "IN" || method == "IS" {
 			condition.Method = "RE"
 		}
-		if condition.Method == "NIN" {
+		if method == "NIN" {
 			condition.Method = "NRE"
 		}
 		condition.Value = tempString
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..8c63e82 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "in" || condition.Method == "nin" {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From 2d180bbec5abb608ce8c9a19eae47d18c6479797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:22 +0000
Subject: [PATCH 04/18] fix: select array elements of raw documents
 independently of their text

Brackets inside strings, arrays nested in elements, scalar elements and
several parents which are maps were split wrongly, so that the result
differed from the one on decoded documents. Escaped strings are decoded
before they are compared and missing raw data is not dereferenced.
---
 MAPL_engine/check.go | 138 ++++++++++++++++++++-----------------------
 1 file changed, 63 insertions(+), 75 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index c3a08b4..99b3e29 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -547,6 +547,12 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	valueToCompareString := string(valueToCompareBytes)
+	if strings.HasPrefix(valueToCompareString, `"`) { // a json string. compare its decoded text
+		var decodedString string
+		if json.Unmarshal(valueToCompareBytes, &decodedString) == nil {
+			valueToCompareString = decodedString
+		}
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
@@ -985,8 +991,8 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 
 func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error) {
 	// used in eval of ANY/ALL node (getting the data from the message attributes by the parentJsonpath)
+	arrayJson := [][]byte{}
 	arrayData := []byte{}
-	arrayDataTemp := []byte{}
 
 	err := errors.New("error")
 	parentJsonpathList := a.GetParentJsonpathAttributeArray()
@@ -998,41 +1004,48 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			if parentJsonpath == "$RELATIVE*" {
 				parentJsonpath = "$*"
 			}
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
+			if message.RequestJsonRawRelative == nil {
+				return [][]byte{}, fmt.Errorf("no relative raw data")
+			}
+			arrayData, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
 		} else {
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
-		}
-		if err == nil {
-			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
-			} else {
-				if len(arrayDataTemp) != 0 {
-					arrayData = append(arrayData, ',')
-					arrayData = append(arrayData, arrayDataTemp...)
-				}
+			if message.RequestJsonRaw == nil {
+				return [][]byte{}, fmt.Errorf("no raw data")
 			}
+			arrayData, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
+		}
+		if err != nil {
+			continue
+		}
+		arrayJsonTemp, errTemp := getArrayOfJsonsFromRawData(arrayData)
+		if errTemp != nil {
+			return [][]byte{}, errTemp
 		}
+		arrayJson = append(arrayJson, arrayJsonTemp...)
 	}
 
-	if err != nil {
+	if err != nil && len(arrayJson) == 0 {
 		return [][]byte{}, err
 	}
+	return arrayJson, nil
+}
 
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
-	if err != nil {
-		return [][]byte{}, err
+func getArrayOfJsonsFromRawData(arrayData []byte) ([][]byte, error) {
+	// the elements of one parent: the items of an array or the key-value pairs of a map
+	arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
+	if len(arrayData) > 0 && arrayData[0] == '{' { // this is not array of jsons ( []interface{} ) but map of jsons ( map[string]interface{} )
+		return getArrayOfJsonsFromMapStringInterface(arrayData)
 	}
 
-	arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
-
-	if err != nil {
-		arrayJson, err := getArrayOfJsonsFromMapStringInterface(arrayData)
-		if err != nil {
-			return [][]byte{}, err
+	arrayJson := getArrayOfJsonsFromInterfaceArray(arrayData)
+	flatArrayJson := [][]byte{}
+	for _, x := range arrayJson {
+		if len(x) == 0 || x[0] != '[' {
+			return arrayJson, nil
 		}
-		return arrayJson, nil
+		flatArrayJson = append(flatArrayJson, getArrayOfJsonsFromInterfaceArray(x)...) // in case of deepscan we get an array of arrays. here we re-arrange it.
 	}
-	return arrayJson, nil
+	return flatArrayJson, nil
 }
 
 func getArrayOfJsonsFromInterfaceArrayOriginal(arrayData []byte) ([][]byte, error) {
@@ -1052,42 +1065,48 @@ func getArrayOfJsonsFromInterfaceArrayOriginal(arrayData []byte) ([][]byte, erro
 	return arrayJson, nil
 }
 
-func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
+func getArrayOfJsonsFromInterfaceArray(arrayData []byte) [][]byte {
 	// faster then getArrayOfJsonsFromInterfaceArrayOriginal
 	// by a factor of about 20
 
-	if len(arrayData) == 0 {
-		return [][]byte{}, nil
-	}
-
-	if arrayData[0] == '{' { // this is not array of jsons ( []interface{} ) but map of jsons ( map[string]interface{} )
-		return [][]byte{}, fmt.Errorf("not array of jsons")
+	if len(arrayData) == 0 || arrayData[0] != '[' {
+		return [][]byte{}
 	}
 
 	arrayJson := [][]byte{}
 	c := 0
-	start := -1
+	start := 1
+	inString := false
 	for i := 0; i < len(arrayData); i++ {
-		if arrayData[i] == '{' {
-			if c == 0 {
-				start = i
+		if inString { // brackets and commas inside strings are not part of the structure
+			if arrayData[i] == '\\' {
+				i += 1
+			} else if arrayData[i] == '"' {
+				inString = false
 			}
-			c += 1
+			continue
 		}
-		if arrayData[i] == '}' {
+		switch arrayData[i] {
+		case '"':
+			inString = true
+		case '{', '[':
+			c += 1
+		case '}', ']':
 			c -= 1
 		}
-		if c == 0 {
-			if start == -1 {
-				continue
+		if (c == 1 && arrayData[i] == ',') || c == 0 {
+			y := arrayData[start:i]
+			start = i + 1
+			if len(y) > 0 {
+				arrayJson = append(arrayJson, y)
 			}
-			y := arrayData[start : i+1]
-			start = -1
-			arrayJson = append(arrayJson, y)
+		}
+		if c == 0 {
+			break
 		}
 	}
 
-	return arrayJson, nil
+	return arrayJson
 }
 
 func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
@@ -1108,34 +1127,3 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
-
-func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
-	if len(arrayData) < 2 {
-		return arrayData, nil
-	}
-
-	/*  slow. we should use "pretty.Ugly" instead
-	buffer := new(bytes.Buffer) // clean the json
-	err := json.Compact(buffer, arrayData)
-	if err != nil {
-		return []byte{}, err
-	}
-	arrayDataNew = buffer.Bytes()
-	*/
-
-	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
-
-	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
-		return arrayDataNew, nil
-	}
-
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
-	}
-	return []byte(arrayDataString), nil
-}
-- 
2.43.0


From cab5dc45d5e7025b55d1e4ac89c68ba72735a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:59 +0000
Subject: [PATCH 05/18] fix: key-value conditions and ANY/ALL on decoded
 documents

- $VALUE.field is now looked up in the value instead of returning all the values
- $KEY and $VALUE are not picked randomly from elements with several keys
- elements or parents of an unexpected type no longer cause a panic
---
 MAPL_engine/check.go           | 35 ++++++++++++++++++++++++++++++----
 MAPL_engine/conditions_tree.go |  3 +++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 99b3e29..16c0855 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -369,6 +369,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil {
+			continue
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -404,6 +407,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 		var extraDataBytes []byte
 
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
+			if message.RequestJsonRawRelative == nil {
+				continue
+			}
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
 		} else {
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRaw, queryString)
@@ -722,7 +728,13 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 	var err error
 	if c.AttributeJsonpathQuery == "$KEY" {
 		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
+		yy, ok := (*xx).(map[string]interface{})
+		if !ok {
+			return nil, fmt.Errorf("element is not a key-value pair")
+		}
+		if len(yy) != 1 { // the key is not well defined
+			return nil, nil
+		}
 		for k := range yy {
 			valueToCompareInterface = k
 			err = nil
@@ -731,7 +743,13 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 	} else {
 
 		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
+		yy, ok := (*xx).(map[string]interface{})
+		if !ok {
+			return nil, fmt.Errorf("element is not a key-value pair")
+		}
+		if len(yy) != 1 { // the value is not well defined
+			return nil, nil
+		}
 		for _, v := range yy {
 			if c.AttributeJsonpathQuery == "$VALUE" {
 				valueToCompareInterface = v
@@ -921,10 +939,16 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	parentJsonpath := a.GetParentJsonpathAttribute()
 	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
+		if message.RequestRawInterfaceRelative == nil {
+			return []interface{}{}, fmt.Errorf("no relative raw data")
+		}
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
+			yy, ok := (*xx).(map[string]interface{})
+			if !ok {
+				return []interface{}{}, nil
+			}
 			for k, v := range yy {
 				zz := make(map[string]interface{}, 1)
 				zz[k] = v
@@ -972,7 +996,10 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // a scalar has no elements
+			return []interface{}{}
+		}
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index fcde248..cd0f2aa 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -388,6 +388,9 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
+	if strings.HasPrefix(query, "$VALUE.") {
+		query = strings.Replace(query, "$VALUE.", "$.", 1) // the query is used on the value
+	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
 		return preparedJsonpath, nil
-- 
2.43.0


From c6f82e158ad459060db5de5ab35dd1d659aa67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:20 +0000
Subject: [PATCH 06/18] fix: report malformed conditions as errors and escape
 stored conditions

- unexpected yaml types, ANY/ALL without exactly one inner condition and
  NOT without exactly one operand are errors instead of panics or silent drops
- special characters in stored conditions are escaped when saved as json
- rules without conditions can be printed
---
 MAPL_engine/conditions_tree.go  | 50 +++++++++++++++++++++++++--------
 MAPL_engine/definitions_rule.go | 28 +++++++++++-------
 MAPL_engine/tools.go            |  4 ++-
 3 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index cd0f2aa..375188b 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,11 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%s,`, parentJsonpathAttributeJson)
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -484,7 +488,11 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%s,`, parentJsonpathAttributeJson)
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
@@ -749,7 +757,10 @@ func InterpretNode(node interface{}, parentString string) (Node, error) {
 
 func handleMapInterfaceInterface(v map[interface{}]interface{}, parentString string) (Node, error) {
 
-	v2 := mapInterfaceToMapString(v)
+	v2, err := mapInterfaceToMapString(v)
+	if err != nil {
+		return nil, err
+	}
 	return handleMapStringInterface(v2, parentString)
 
 }
@@ -837,14 +848,15 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	numberOfInnerNodes := 0
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
-			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
+			parentJsonpathAttribute, ok := val.(string)
+			if ok && isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
-				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v]", parentJsonpathAttribute)
+				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v]", val)
 			}
 		case "returnValueJsonpath":
 			returnValueJsonpath := map[string]interface{}{}
@@ -852,15 +864,18 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 			case map[string]interface{}:
 				returnValueJsonpath = val.(map[string]interface{})
 			case map[interface{}]interface{}:
-				returnValueJsonpath = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				returnValueJsonpath, err = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				if err != nil {
+					return nil, err
+				}
 			default:
 				return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
 			}
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
-				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
+				vString, ok := v.(string)
+				if ok && strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
 					return nil, fmt.Errorf("invalid returnValueJsonpath [%v] [should start with jsonpath:$RELATIVE]", returnValueJsonpath[k])
@@ -873,11 +888,15 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				return nil, err
 			}
 			anyAllNode.Append(node)
+			numberOfInnerNodes += 1
 		}
 	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
+	if numberOfInnerNodes != 1 {
+		return nil, fmt.Errorf("ANY/ALL node must contain exactly one condition")
+	}
 
 	return anyAllNode, nil
 }
@@ -921,12 +940,16 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 	return true
 }
 
-func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
+func mapInterfaceToMapString(node map[interface{}]interface{}) (map[string]interface{}, error) {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		kString, ok := k.(string)
+		if !ok {
+			return nil, fmt.Errorf("key is not a string [%v]", k)
+		}
+		node_out[kString] = val
 	}
-	return node_out
+	return node_out, nil
 }
 
 func getNodeValType(node map[string]interface{}, parentString string) (interface{}, string, error) {
@@ -960,6 +983,9 @@ func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if parentString == "NOT" && len(v2) != 1 {
+		return nil, fmt.Errorf("NOT node must contain exactly one condition")
+	}
 	for _, subNode := range v2 {
 		subNode2, err := InterpretNode(subNode, "") // recursion!
 		if err != nil {
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 423f51c..a7cb0be 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -171,10 +171,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute = fmt.Sprintf("%v", val) // for example, true is interpreted as bool in yaml
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method = fmt.Sprintf("%v", val)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -188,12 +188,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk] = fmt.Sprintf("%v", vv)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)] = fmt.Sprintf("%v", vv)
 				}
 			}
 		}
@@ -291,31 +291,39 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
+	attributeJson, err := json.Marshal(attributeString)
+	if err != nil {
+		return []byte{}, err
+	}
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
 		methodString = c.OriginalMethod
 	}
+	methodJson, err := json.Marshal(methodString)
+	if err != nil {
+		return []byte{}, err
+	}
 
 	valueString := c.Value
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
+	valueJson, err := json.Marshal(valueString)
+	if err != nil {
+		return []byte{}, err
+	}
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	str := fmt.Sprintf(`{"condition":{"attribute":%s,"method":%s,"value":%s}}`, attributeJson, methodJson, valueJson)
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%s,"method":%s,"value":%s,"returnValueJsonpath":%v}}`, attributeJson, methodJson, valueJson, string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From 40d8162db5ca509387172b4f55aa6f7bbec00e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:56 +0000
Subject: [PATCH 07/18] fix: match documented wildcards, missing labels,
 addresses and kafka verbs

- EQ and NEQ on labels and other string attributes accept * and ? as documented
- NEX on a label is the negation of EX
- read includes CONSUME and write includes PRODUCE as documented
- addresses are compared by value and not only by text
---
 MAPL_engine/check.go        | 12 ++++++++++--
 MAPL_engine/rules_load.go   |  6 +++++-
 MAPL_engine/string_utils.go | 12 ++++++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 16c0855..9e3bd9f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -192,7 +192,7 @@ func TestSender(rule *Rule, message *MessageAttributes) bool {
 		switch expandedSender.Type {
 		case "subnet":
 			if expandedSender.IsIP {
-				match_temp = (expandedSender.Name == message.SourceIp)
+				match_temp = (expandedSender.Name == message.SourceIp) || expandedSender.IP.Equal(message.SourceNetIp)
 			}
 			if expandedSender.IsCIDR {
 				match_temp = expandedSender.CIDR.Contains(message.SourceNetIp)
@@ -224,7 +224,7 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 		switch expandedReceiver.Type {
 		case "subnet":
 			if expandedReceiver.IsIP {
-				match_temp = (expandedReceiver.Name == message.DestinationIp)
+				match_temp = (expandedReceiver.Name == message.DestinationIp) || expandedReceiver.IP.Equal(message.DestinationNetIp)
 			}
 			if expandedReceiver.IsCIDR {
 				match_temp = expandedReceiver.CIDR.Contains(message.DestinationNetIp)
@@ -467,6 +467,10 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test that the key does not exist
+		_, ok := message.SourceLabels[c.AttributeSenderLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
 			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
@@ -497,6 +501,10 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test that the key does not exist
+		_, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
 			result = compareRegexFunc(valueToCompareString1, c.Method, c.ValueRegex)
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 41f8208..f2dd858 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -409,7 +409,11 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 		return fmt.Errorf("invalid regex string in condition")
 	}
 
-	re, err = regexp.Compile(ConvertStringToRegex(condition.Value, condition.OriginalMethod))
+	valueStringRegex := ConvertStringToRegex(condition.Value, condition.OriginalMethod)
+	if method == "EQ" || method == "NEQ" || method == "NE" {
+		valueStringRegex = convertWildcardsToRegex(condition.Value)
+	}
+	re, err = regexp.Compile(valueStringRegex)
 	flagError := false
 	if err == nil {
 		condition.ValueStringRegex = re.Copy() // this is used in EQ,NEQ in non-jsonpath fields (for example, we allow wildcards in strings there)
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2387fce..60dde1d 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -72,6 +72,14 @@ func ConvertStringToRegex(str_in, method string) string {
 	return str_out
 }
 
+// convertWildcardsToRegex converts one string to a regex for the full string. Only the wildcards * and ? are special.
+func convertWildcardsToRegex(str string) string {
+	str = regexp.QuoteMeta(str)
+	str = strings.Replace(str, "\\*", ".*", -1)
+	str = strings.Replace(str, "\\?", ".", -1)
+	return "^(?s:" + str + ")$"
+}
+
 func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]ExpandedSenderReceiver, error) {
 	var output []ExpandedSenderReceiver
 
@@ -118,9 +126,9 @@ func ConvertOperationStringToRegex(str_in string) string {
 	case "*":
 		str_out = ".*"
 	case "write", "WRITE":
-		str_out = "(^POST$|^PUT$|^DELETE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
+		str_out = "(^POST$|^PUT$|^DELETE$|^PRODUCE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
 	case "read", "READ":
-		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^read$|^READ$)"
+		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^CONSUME$|^read$|^READ$)"
 	default:
 		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
 	}
-- 
2.43.0


From 63375d32542ad86d7dba7dc1d5560f7d92c4738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:59 +0000
Subject: [PATCH 08/18] fix: refuse conditions that mongo cannot express and
 match missing fields

The translation to a mongo query silently produced wrong filters for paths
starting with a dot, absolute paths inside ANY/ALL, lists of parents, recursive
descent inside a path and key-value conditions outside an ANY node. These are
now either translated correctly or reported as errors.

NEQ no longer selects documents without the field, booleans equal their text,
and key-value conditions require one pair to satisfy the condition.
---
 MAPL_engine/mongo_plugin.go | 139 +++++++++++++++++++++++++-----------
 1 file changed, 98 insertions(+), 41 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..930de4e 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,16 +61,17 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+	insideElement := inArrayCounter > 0
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "[:]") || strings.Contains(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := toMongoParentField(a.ParentJsonpathAttributeOriginal, base, insideElement)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
@@ -90,17 +91,18 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+	insideElement := inArrayCounter > 0
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "[:]") || strings.Contains(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
 
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := toMongoParentField(a.ParentJsonpathAttributeOriginal, base, insideElement)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
@@ -127,11 +129,11 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	}
 
 	var field string
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
-	}
+	var addedField string // the array of key-value pairs of the object at parentString
+	isValue := strings.HasPrefix(c.OriginalAttribute, "jsonpath:$VALUE")
+	isKey := strings.HasPrefix(c.OriginalAttribute, "jsonpath:$KEY")
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$VALUE") {
+	if isValue {
 
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("VALUE within array is not supported") // if neccessary we can do [$unwind, $addFields, $merge] steps!
@@ -139,16 +141,14 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//if strings.Contains(c.OriginalAttribute,"jsonpath:$VALUE."){
 		//	return bson.M{}, []bson.M{}, fmt.Errorf("json VALUE is not supported")
 		//}
-		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
-		addedField := fmt.Sprintf("addedField.%v", parentString)
-		field = fmt.Sprintf("%v.v%v", addedField, subField)
-
-		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
-
-		initialSteps = append(initialSteps, addFieldStep)
+		var err error
+		field, err = toMongoPath("v" + strings.TrimPrefix(c.OriginalAttribute, "jsonpath:$VALUE"))
+		if err != nil {
+			return bson.M{}, []bson.M{}, err
+		}
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$KEY") {
+	if isKey {
 
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("KEY within array is not supported")
@@ -157,27 +157,22 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 			return bson.M{}, []bson.M{}, fmt.Errorf("json KEY is not supported")
 		}
 
-		field0 := parentString
-		field1 := fmt.Sprintf("addedField.%v", field0)
-		field = fmt.Sprintf("%v.k", field1)
-
-		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
-
-		initialSteps = append(initialSteps, addFieldStep)
+		field = "k"
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
-
-		newBase := ""
-		if len(base) > 0 {
-			newBase = base + "."
+	if isKey || isValue {
+		if parentString == "" {
+			return bson.M{}, []bson.M{}, fmt.Errorf("KEY/VALUE is supported only directly under an ANY node")
+		}
+		addedField = fmt.Sprintf("addedField.%v", parentString)
+		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
+		initialSteps = append(initialSteps, addFieldStep)
+	} else {
+		var err error
+		field, err = toMongoField(c.OriginalAttribute, base, inArrayCounter > 0)
+		if err != nil {
+			return bson.M{}, []bson.M{}, err
 		}
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
-	}
-
-	field, err := removeQuotes(field)
-	if err != nil {
-		return bson.M{}, []bson.M{}, err
 	}
 
 	isNumberFlag, num := isNumber(c.Value)
@@ -193,8 +188,16 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	switch strings.ToUpper(c.Method) {
 	case "EQ":
 		q = bson.M{field: bson.M{"$eq": valToUse}}
+		if c.Value == "true" || c.Value == "false" { // a boolean in the document equals its text
+			q = bson.M{field: bson.M{"$in": []interface{}{c.Value, c.Value == "true"}}}
+		}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse}}
+		q1 := bson.M{field: bson.M{"$ne": valToUse}}
+		if c.Value == "true" || c.Value == "false" {
+			q1 = bson.M{field: bson.M{"$nin": []interface{}{c.Value, c.Value == "true"}}}
+		}
+		q2 := bson.M{field: bson.M{"$exists": true}} // a missing field fails the condition
+		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
@@ -218,9 +221,63 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("methods IN,NIN are not supported yet")
 	}
 
+	if isKey || isValue { // one of the pairs should satisfy the condition
+		q = bson.M{addedField: bson.M{"$elemMatch": q}}
+	}
+
 	return q, initialSteps, nil
 }
 
+// toMongoParentField converts the parentJsonpathAttribute of ANY/ALL to the name of the field in mongo
+func toMongoParentField(attribute, base string, insideElement bool) (string, error) {
+	if strings.Contains(attribute, ",") {
+		return "", fmt.Errorf("list of parentJsonpathAttributes is not supported")
+	}
+	attribute = strings.Replace(attribute, "[:]", "", -1)
+	attribute = strings.Replace(attribute, "[*]", "", -1)
+	return toMongoField(attribute, base, insideElement)
+}
+
+// toMongoField converts a jsonpath attribute to the name of the field in mongo.
+// inside ANY/ALL the fields are relative to the element, elsewhere to the document.
+func toMongoField(attribute, base string, insideElement bool) (string, error) {
+
+	isRelative := strings.HasPrefix(attribute, "jsonpath:$RELATIVE")
+	if isRelative != insideElement {
+		return "", fmt.Errorf("attribute [%v] is not supported here (RELATIVE is supported only inside ANY/ALL, and other attributes only outside)", attribute)
+	}
+	if isRelative {
+		return toMongoPath(strings.TrimPrefix(attribute, "jsonpath:$RELATIVE"))
+	}
+
+	if !strings.HasPrefix(attribute, "jsonpath:$.") && !strings.HasPrefix(attribute, "jsonpath:.") {
+		return "", fmt.Errorf("attribute [%v] is not supported", attribute)
+	}
+	field, err := toMongoPath(strings.TrimPrefix(strings.TrimPrefix(attribute, "jsonpath:"), "$"))
+	if err != nil {
+		return "", err
+	}
+	if len(base) > 0 {
+		field = base + "." + field
+	}
+	return field, nil
+}
+
+func toMongoPath(path string) (string, error) {
+	if strings.Contains(path, "..") {
+		return "", fmt.Errorf("deepscan is not supported")
+	}
+	field, err := removeQuotes(path)
+	if err != nil {
+		return "", err
+	}
+	field = strings.Trim(field, ".")
+	if field == "" || field == "*" {
+		return "", fmt.Errorf("path [%v] does not name a field", path)
+	}
+	return field, nil
+}
+
 func isNumber(str string) (bool, float64) {
 	if s, err := strconv.ParseFloat(str, 64); err == nil {
 		return true, s
-- 
2.43.0


From 92421d909f003c46dc1dd5256cf05626d0cfa550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:46 +0000
Subject: [PATCH 09/18] fix: compare quantities without rounding errors and
 texts as they are

Decimal units were applied by a multiplication, so 700m was not equal to 0.7.
They are now parsed as exponents. NaN and Inf are texts and not numbers.

Quotes and brackets which are part of a text in the document were dropped before
the comparison. A null in a raw document is now a missing value, as it is in a
decoded document.
---
 MAPL_engine/check.go               | 36 +++++++++++++++++-------------
 MAPL_engine/mongo_plugin.go        |  3 ++-
 MAPL_engine/rules_load.go          |  4 +---
 MAPL_engine/string_utils.go        | 21 +++++++++++++++++
 MAPL_engine/validate_conditions.go |  4 +---
 5 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 9e3bd9f..309f980 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -561,24 +561,31 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	valueToCompareString := string(valueToCompareBytes)
-	if strings.HasPrefix(valueToCompareString, `"`) { // a json string. compare its decoded text
+	isText := c.AttributeJsonpathQuery == "$KEY"
+	if !isText && strings.HasPrefix(valueToCompareString, `"`) { // a json string. compare its decoded text
 		var decodedString string
 		if json.Unmarshal(valueToCompareBytes, &decodedString) == nil {
 			valueToCompareString = decodedString
+			isText = true
 		}
 	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
+	if !isText && valueToCompareString == "null" { // same as a missing value
+		return whatToReturnInCaseOfEmptyResult(*c)
+	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	if !isText {
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
 	result := false
 	L := len(valueToCompareString) - 1
-	if L > 0 {
+	if L > 0 && !isText {
 		if valueToCompareString[0] == '"' && valueToCompareString[L] != '"' {
 			log.Println("quotation marks not aligned")
 			return false
@@ -595,9 +602,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	method := strings.ToUpper(c.Method)
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
-		valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-		valueToCompareFloat, err := strconv.ParseFloat(valueStringWithoutUnits, 64)
-		valueToCompareFloat = valueToCompareFloat * factor
+		valueToCompareFloat, err := parseNumberWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string
 
 		if err != nil || c.ValueFloat == nil {
 			if method == "EQ" || method == "NEQ" || method == "NE" {
@@ -669,17 +674,18 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
 
-	if len(valueToCompareString) == 0 || valueToCompareString == "<nil>" {
+	if len(valueToCompareString) == 0 || valueToCompareInterface == nil {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
-	if len(valueToCompareString) == 0 {
-		return whatToReturnInCaseOfEmptyResult(*c)
-	}
+	if _, isText := valueToCompareInterface.(string); !isText { // a text is compared as it is
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		if len(valueToCompareString) == 0 {
+			return whatToReturnInCaseOfEmptyResult(*c)
+		}
 
-	valueToCompareString, ok := removeQuotesFromResult(valueToCompareString)
-	{
+		var ok bool
+		valueToCompareString, ok = removeQuotesFromResult(valueToCompareString)
 		if !ok {
 			return false
 		}
@@ -692,8 +698,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		flagCompareToNumber := false
 		var valueToCompareFloat float64
 		if c.ValueInt != nil || c.ValueFloat != nil {
-			valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
+			valueToCompareFloat, err = parseNumberWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
 				if method == "NEQ" || method == "NE" {
@@ -701,7 +706,6 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 				}
 				return false
 			}
-			valueToCompareFloat = valueToCompareFloat * factor
 			flagCompareToNumber = true
 		}
 
diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 930de4e..a9b8f8a 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -3,6 +3,7 @@ package MAPL_engine
 import (
 	"fmt"
 	"go.mongodb.org/mongo-driver/bson"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -279,7 +280,7 @@ func toMongoPath(path string) (string, error) {
 }
 
 func isNumber(str string) (bool, float64) {
-	if s, err := strconv.ParseFloat(str, 64); err == nil {
+	if s, err := strconv.ParseFloat(str, 64); err == nil && !math.IsNaN(s) && !math.IsInf(s, 0) {
 		return true, s
 	}
 	return false, -1.0
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index f2dd858..0ad2e08 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -390,9 +390,7 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 		condition.Value = tempString
 	}
 
-	tempString, factor := convertStringWithUnits(condition.Value)
-	valFloat, err := strconv.ParseFloat(tempString, 64)
-	valFloat = valFloat * factor
+	valFloat, err := parseNumberWithUnits(condition.Value)
 	if err == nil {
 		condition.ValueFloat = &valFloat
 	}
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 60dde1d..2c01e24 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"math"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -144,6 +145,23 @@ func SliceHasPrefix(sl []string, v string) bool {
 	return false
 }
 
+// decimalUnits holds the units which can be written as an exponent
+var decimalUnits = map[string]string{"%": "e-2", "m": "e-3", "K": "e3", "M": "e6", "G": "e9", "T": "e12", "P": "e15", "E": "e18",
+	"e3": "e3", "e6": "e6", "e9": "e9", "e12": "e12", "e15": "e15", "e18": "e18"}
+
+// parseNumberWithUnits converts a string (optionally with units) to a number
+func parseNumberWithUnits(inputString string) (float64, error) {
+	stringWithoutUnits, factor := convertStringWithUnits(inputString)
+	val, err := strconv.ParseFloat(stringWithoutUnits, 64)
+	if err != nil {
+		return 0, err
+	}
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return 0, fmt.Errorf("not a finite number [%v]", inputString)
+	}
+	return val * factor, nil
+}
+
 func convertStringWithUnits(inputString string) (string, float64) {
 	// see: https://en.wikipedia.org/wiki/Binary_prefix
 	// also: https://kubernetes.io/docs/concepts/configuration/manage-compute-resources-container/#meaning-of-memory
@@ -158,6 +176,9 @@ func convertStringWithUnits(inputString string) (string, float64) {
 
 		if flag1 && flag2 {
 			outputString := strings.Replace(inputString, unit, "", -1)
+			if exponent, ok := decimalUnits[unit]; ok { // avoid the rounding errors of the multiplication
+				return outputString + exponent, 1.0
+			}
 			factor := factorVec[i_unit]
 			return outputString, factor
 		}
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 8c63e82..b856cec 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -149,10 +149,8 @@ func validateMethod(condition *Condition) (bool, error) {
 
 func convertAndValidateNumericalValues(condition *Condition) (bool, error) {
 
-	tempString, factor := convertStringWithUnits(condition.Value)
 	isNum := false
-	valFloat, err := strconv.ParseFloat(tempString, 64)
-	valFloat = valFloat * factor
+	valFloat, err := parseNumberWithUnits(condition.Value)
 	if err == nil {
 		condition.ValueFloat = &valFloat
 		isNum = true
-- 
2.43.0


From 356ec80d17bb8116c61ac1c26ff387e32d0b06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:22 +0000
Subject: [PATCH 10/18] fix: test existence of arrays which mix texts with
 other values

EX failed on arrays such as ["a", 1] because their printed form starts but does
not end with a quotation mark.
---
 MAPL_engine/check.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 309f980..e8f8793 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -582,6 +582,9 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
+	if isExistenceMethod(c.Method) {
+		return strings.ToUpper(c.Method) == "EX"
+	}
 
 	result := false
 	L := len(valueToCompareString) - 1
@@ -683,6 +686,9 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		if len(valueToCompareString) == 0 {
 			return whatToReturnInCaseOfEmptyResult(*c)
 		}
+		if isExistenceMethod(c.Method) {
+			return strings.ToUpper(c.Method) == "EX"
+		}
 
 		var ok bool
 		valueToCompareString, ok = removeQuotesFromResult(valueToCompareString)
@@ -787,6 +793,10 @@ func queryInterface(preparedJsonpathQuery jsonpath.FilterFunc, rawInterface inte
 	return valueToCompareInterface, err
 }
 
+func isExistenceMethod(method string) bool {
+	return strings.ToUpper(method) == "EX" || strings.ToUpper(method) == "NEX"
+}
+
 func whatToReturnInCaseOfEmptyResult(c Condition) bool {
 	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
 		return true
-- 
2.43.0


From e4aa8aa1bd35d64ec18960f547cb1fa447c7a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:13 +0000
Subject: [PATCH 11/18] fix: treat the items of IN and NIN lists as texts

A dot in an item (addresses, image names, domains) matched any character.
---
 MAPL_engine/rules_load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 0ad2e08..6b16231 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -378,6 +378,7 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	if method == "IN" || method == "NIN" || method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
+		tempString = regexp.QuoteMeta(tempString) // the items are texts and not regular expressions
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
 		if method == "IN" || method == "IS" {
-- 
2.43.0


From ca4d4467bc27efe9c01f23eef138cc9b5eba8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:27 +0000
Subject: [PATCH 12/18] fix: select array elements below several slices and in
 spaced raw documents

---
 MAPL_engine/check.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e8f8793..cc9770b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -577,7 +577,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	if !isText {
-		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		valueToCompareString = removeQuotesAndBrackets(string(pretty.Ugly([]byte(valueToCompareString))))
 	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
@@ -1061,12 +1061,12 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			if message.RequestJsonRaw == nil {
 				return [][]byte{}, fmt.Errorf("no raw data")
 			}
-			arrayData, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
+			arrayData, err = jsonslice.Get(pretty.Ugly(*message.RequestJsonRaw), parentJsonpath) // jsonslice cannot slice an empty array which is written with spaces
 		}
 		if err != nil {
 			continue
 		}
-		arrayJsonTemp, errTemp := getArrayOfJsonsFromRawData(arrayData)
+		arrayJsonTemp, errTemp := getArrayOfJsonsFromRawData(arrayData, countArrayLevels(parentJsonpath))
 		if errTemp != nil {
 			return [][]byte{}, errTemp
 		}
@@ -1079,7 +1079,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 	return arrayJson, nil
 }
 
-func getArrayOfJsonsFromRawData(arrayData []byte) ([][]byte, error) {
+func getArrayOfJsonsFromRawData(arrayData []byte, levels int) ([][]byte, error) {
 	// the elements of one parent: the items of an array or the key-value pairs of a map
 	arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
 	if len(arrayData) > 0 && arrayData[0] == '{' { // this is not array of jsons ( []interface{} ) but map of jsons ( map[string]interface{} )
@@ -1087,14 +1087,26 @@ func getArrayOfJsonsFromRawData(arrayData []byte) ([][]byte, error) {
 	}
 
 	arrayJson := getArrayOfJsonsFromInterfaceArray(arrayData)
-	flatArrayJson := [][]byte{}
-	for _, x := range arrayJson {
-		if len(x) == 0 || x[0] != '[' {
-			return arrayJson, nil
+	for i := 0; i < levels; i++ {
+		flatArrayJson := [][]byte{}
+		for _, x := range arrayJson {
+			if len(x) == 0 || x[0] != '[' {
+				return arrayJson, nil
+			}
+			flatArrayJson = append(flatArrayJson, getArrayOfJsonsFromInterfaceArray(x)...) // in case of deepscan we get an array of arrays. here we re-arrange it.
 		}
-		flatArrayJson = append(flatArrayJson, getArrayOfJsonsFromInterfaceArray(x)...) // in case of deepscan we get an array of arrays. here we re-arrange it.
+		arrayJson = flatArrayJson
+	}
+	return arrayJson, nil
+}
+
+func countArrayLevels(parentJsonpath string) int {
+	// each slice and deepscan in the path puts the selected data into one more array
+	levels := strings.Count(parentJsonpath, "[:]") + strings.Count(parentJsonpath, "[*]") + strings.Count(parentJsonpath, "..")
+	if levels < 1 {
+		return 1
 	}
-	return flatArrayJson, nil
+	return levels
 }
 
 func getArrayOfJsonsFromInterfaceArrayOriginal(arrayData []byte) ([][]byte, error) {
-- 
2.43.0


From c84923ecaf92d16a4151cf3bb3d61abc1626db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:31 +0000
Subject: [PATCH 13/18] fix: keep the resource type given in a loaded message

Loading messages cleared request_type for every protocol and then set it
only for HTTP and TCP. A Kafka message loaded from text lost its type and
could never match a rule on kafkaTopic or consumerGroup.
---
 MAPL_engine/messages_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/messages_load.go b/MAPL_engine/messages_load.go
index b7045d9..df3e4f3 100644
--- a/MAPL_engine/messages_load.go
+++ b/MAPL_engine/messages_load.go
@@ -75,7 +75,7 @@ func AddResourceType(message *MessageAttributes) {
 	// add resource_type by the resource_protocol
 	// we have resource_type to allow for several types per one protocol.
 	//
-	message.ContextType = ""
+	// for other protocols (e.g. KAFKA) the type given in the message is kept
 	switch message.ContextProtocol { // these are the only protocols we currently support
 	case "HTTP", "http":
 		message.ContextType = "path"
-- 
2.43.0


From 9ed6158b848b94dc0997919470331bb3e4678038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:06 +0000
Subject: [PATCH 14/18] fix: compare objects and arrays of raw documents by the
 text of the decoded document

---
 MAPL_engine/check.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index cc9770b..cd0909f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -577,6 +577,14 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	if !isText {
+		if strings.HasPrefix(valueToCompareString, "{") || strings.HasPrefix(valueToCompareString, "[") { // same text for any layout and order of keys
+			var decodedContainer interface{}
+			if json.Unmarshal(valueToCompareBytes, &decodedContainer) == nil {
+				if jsonBytes, err := json.Marshal(decodedContainer); err == nil {
+					valueToCompareString = string(jsonBytes)
+				}
+			}
+		}
 		valueToCompareString = removeQuotesAndBrackets(string(pretty.Ugly([]byte(valueToCompareString))))
 	}
 	if len(valueToCompareString) == 0 {
-- 
2.43.0


From de9d993c8a5a820ce6b7684e95413fc3a9be2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:06 +0000
Subject: [PATCH 15/18] fix: existence of an array does not depend on brackets
 inside its texts

---
 MAPL_engine/check.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index cd0909f..a0cd6e6 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -585,6 +585,9 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 				}
 			}
 		}
+		if isExistenceMethod(c.Method) && isNonEmptyArray(valueToCompareString) {
+			return strings.ToUpper(c.Method) == "EX"
+		}
 		valueToCompareString = removeQuotesAndBrackets(string(pretty.Ugly([]byte(valueToCompareString))))
 	}
 	if len(valueToCompareString) == 0 {
@@ -690,6 +693,9 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	}
 
 	if _, isText := valueToCompareInterface.(string); !isText { // a text is compared as it is
+		if isExistenceMethod(c.Method) && isNonEmptyArray(valueToCompareString) {
+			return strings.ToUpper(c.Method) == "EX"
+		}
 		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
 		if len(valueToCompareString) == 0 {
 			return whatToReturnInCaseOfEmptyResult(*c)
@@ -805,6 +811,10 @@ func isExistenceMethod(method string) bool {
 	return strings.ToUpper(method) == "EX" || strings.ToUpper(method) == "NEX"
 }
 
+func isNonEmptyArray(text string) bool {
+	return strings.HasPrefix(text, "[") && !strings.HasPrefix(text, "[[") && text != "[]" && text != `[""]`
+}
+
 func whatToReturnInCaseOfEmptyResult(c Condition) bool {
 	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
 		return true
-- 
2.43.0


From f20c69086e8e023ce9ca81b796cad0d49c42db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:44 +0000
Subject: [PATCH 16/18] fix: validate membership values as lists of texts

---
 MAPL_engine/validate_conditions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index b856cec..7451c9b 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -136,6 +136,7 @@ func validateMethod(condition *Condition) (bool, error) {
 		}
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
+		tempString = regexp.QuoteMeta(tempString) // the items are texts and not regular expressions
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
 
-- 
2.43.0


From 8a8ddd3e66f9c6bf571d15e9bf88d41d58eb2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:38 +0000
Subject: [PATCH 17/18] fix: reject unknown sender and receiver attributes in
 conditions

---
 MAPL_engine/validate_conditions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 7451c9b..90e573f 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -208,12 +208,18 @@ func validateConditionOnLabels(condition *Condition) (bool, error) {
 func validateConditionOnSenderReceiverAttributes(condition *Condition) (bool, error) {
 
 	if strings.HasPrefix(condition.Attribute, "$sender.") { // test if ATTRIBUTE is of type sender object
+		if condition.Attribute != "$sender.namespace" && condition.Attribute != "$sender.cluster" {
+			return false, fmt.Errorf("invalid attribute in condition [%v]", condition.Attribute)
+		}
 		if slice.ContainsString(numberMethodSlice, condition.Method) {
 			return false, fmt.Errorf("numerical method with $sender")
 		}
 	}
 
 	if strings.HasPrefix(condition.Attribute, "$receiver.") { // test if ATTRIBUTE is of type receiver object
+		if condition.Attribute != "$receiver.namespace" && condition.Attribute != "$receiver.cluster" {
+			return false, fmt.Errorf("invalid attribute in condition [%v]", condition.Attribute)
+		}
 		if slice.ContainsString(numberMethodSlice, condition.Method) {
 			return false, fmt.Errorf("numerical method with $receiver")
 		}
-- 
2.43.0


From 8e88faf156c11bfa77c73d4d1d46887c8a5174ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:41:35 +0000
Subject: [PATCH 18/18] fix: let wildcards in names, operations and resources
 stand for line breaks

---
 MAPL_engine/rules_load.go   | 4 ++--
 MAPL_engine/string_utils.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 6b16231..0ac4807 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -205,13 +205,13 @@ func ConvertFieldsToRegex(rule *Rule) error {
 		return err
 	}
 
-	re, err := regexp.Compile(ConvertOperationStringToRegex(rule.Operation)) // a special case of regex for operations to support CRUD
+	re, err := regexp.Compile("(?s)" + ConvertOperationStringToRegex(rule.Operation)) // a special case of regex for operations to support CRUD
 	if err != nil {
 		return err
 	}
 	rule.OperationRegex = re.Copy()
 
-	re, err = regexp.Compile(ConvertStringToRegex(rule.Resource.ResourceName, "WithWildcards")) // we allow automatic use of wildcards in ResourceName attribute
+	re, err = regexp.Compile("(?s)" + ConvertStringToRegex(rule.Resource.ResourceName, "WithWildcards")) // we allow automatic use of wildcards in ResourceName attribute
 	if err != nil {
 		return err
 	}
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2c01e24..eb88a3a 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -108,7 +108,7 @@ func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]Exp
 		str = strings.Replace(str, "/", "\\/", -1)
 		str = "^" + str + "$" // force full string
 
-		re, err := regexp.Compile(str)
+		re, err := regexp.Compile("(?s)" + str) // the wildcards stand for line breaks too
 		if err != nil {
 			return []ExpandedSenderReceiver{}, fmt.Errorf("can't create regex of value in list: %v", err)
 		}
-- 
2.43.0

