// probe shows what the engine answers for one condition and one document, in each document form.
// usage: probe '<conditions as JSON or YAML flow>' '<document>'
package main

import (
	"encoding/json"
	"fmt"
	"os"

	me "github.com/octarinesec/MAPL/MAPL_engine"
)

func main() {
	text := `{"rules":[{"ruleID":"r","sender":{"senderName":"*","senderType":"*"},"receiver":{"receiverName":"*","receiverType":"*"},"protocol":"*","resource":{"resourceType":"*","resourceName":"*"},"operation":"*","decision":"block","conditions":` + os.Args[1] + `}]}`
	rules, err := me.YamlReadRulesFromString(text)
	if err != nil {
		fmt.Println("load:", err)
		return
	}
	raw := []byte(os.Args[2])
	var dec interface{}
	if err := json.Unmarshal(raw, &dec); err != nil {
		fmt.Println("doc:", err)
	}
	for _, form := range []string{"raw", "decoded", "both", "none"} {
		m := &me.MessageAttributes{}
		if form == "raw" || form == "both" {
			m.RequestJsonRaw = &raw
		}
		if form == "decoded" || form == "both" {
			m.RequestRawInterface = &dec
		}
		d, _, _, _, _, _, x := me.Check(m, &rules)
		b, _ := json.Marshal(x)
		fmt.Println(form, d, string(b))
	}
}
