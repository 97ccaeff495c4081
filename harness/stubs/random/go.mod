module github.com/mmcloughlin/random

go 1.21
