module verif/harness

go 1.21

require github.com/octarinesec/MAPL v0.0.0
require (
	github.com/bhmj/jsonslice v1.1.2
	github.com/ghodss/yaml v1.0.0
	github.com/smartystreets/goconvey v1.8.0
	github.com/tidwall/pretty v1.2.1
	github.com/toolkits/slice v0.0.0-20141116085117-e44a80af2484
	github.com/yalp/jsonpath v0.0.0-20180802001716-5cc68e5049a0
	go.mongodb.org/mongo-driver v1.11.4
	gopkg.in/getlantern/deepcopy.v1 v1.0.0-20140913144530-b923171e8640
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/bhmj/xpression v0.9.1 // indirect
	github.com/golang/snappy v0.0.1 // indirect
	github.com/gopherjs/gopherjs v1.17.2 // indirect
	github.com/jtolds/gls v4.20.0+incompatible // indirect
	github.com/klauspost/compress v1.13.6 // indirect
	github.com/montanaflynn/stats v0.0.0-20171201202039-1bf9dbcd8cbe // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/smartystreets/assertions v1.13.1 // indirect
	github.com/xdg-go/pbkdf2 v1.0.0 // indirect
	github.com/xdg-go/scram v1.1.1 // indirect
	github.com/xdg-go/stringprep v1.0.3 // indirect
	github.com/youmark/pkcs8 v0.0.0-20181117223130-1be2e3e5546d // indirect
	golang.org/x/crypto v0.24.0 // indirect
	golang.org/x/sync v0.7.0 // indirect
	golang.org/x/text v0.16.0 // indirect
)

replace github.com/octarinesec/MAPL => /repo
