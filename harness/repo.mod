module github.com/mmcloughlin/trunnel

go 1.21

require (
	github.com/pkg/errors v0.9.1
	github.com/stretchr/testify v1.12.1
	gopkg.in/yaml.v2 v2.4.0
)

require go.yaml.in/yaml/v3 v3.0.5 // indirect
