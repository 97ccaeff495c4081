module github.com/mmcloughlin/trunnel/verif

go 1.26.0

require (
	github.com/mmcloughlin/random v0.0.0
	github.com/mmcloughlin/trunnel v0.0.0
	github.com/serenize/snaker v0.0.0-20201027110005-a7ad2135616e
	github.com/spf13/afero v1.15.0
	github.com/urfave/cli v0.0.0
	golang.org/x/tools v0.52.0
)

require (
	github.com/pkg/errors v0.9.1 // indirect
	github.com/stretchr/testify v1.12.1 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/text v0.28.0 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace (
	github.com/mmcloughlin/random => ./stubs/random
	github.com/mmcloughlin/trunnel => /repo
	github.com/urfave/cli => ./stubs/cli
)
