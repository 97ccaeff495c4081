module github.com/urfave/cli

go 1.21
