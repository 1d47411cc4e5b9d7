module verif/mc

go 1.23.0

require github.com/sugarme/tokenizer v0.0.0

replace github.com/sugarme/tokenizer => /repo
require (
	github.com/emirpasic/gods v1.18.1
	github.com/patrickmn/go-cache v2.1.0+incompatible
	github.com/rivo/uniseg v0.4.7
	github.com/schollz/progressbar/v2 v2.15.0
	github.com/sugarme/regexpset v0.0.0-20200920021344-4d4ec8eaf93c
	golang.org/x/sync v0.14.0
	golang.org/x/text v0.25.0
)
require (
	github.com/mitchellh/colorstring v0.0.0-20190213212951-d06e56a500db // indirect
	github.com/stretchr/testify v1.10.0 // indirect
)
