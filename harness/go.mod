module verif/harness

go 1.23.0

require (
	github.com/sugarme/tokenizer v0.0.0
	golang.org/x/text v0.25.0
)

require (
	github.com/emirpasic/gods v1.18.1 // indirect
	github.com/mitchellh/colorstring v0.0.0-20190213212951-d06e56a500db // indirect
	github.com/patrickmn/go-cache v2.1.0+incompatible // indirect
	github.com/rivo/uniseg v0.4.7 // indirect
	github.com/schollz/progressbar/v2 v2.15.0 // indirect
	github.com/sugarme/regexpset v0.0.0-20200920021344-4d4ec8eaf93c // indirect
	golang.org/x/sync v0.14.0 // indirect
)

replace github.com/sugarme/tokenizer => /repo
