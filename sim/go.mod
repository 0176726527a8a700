module verif.local/sim

go 1.25

require (
	github.com/clipperhouse/flag v0.0.1
	github.com/clipperhouse/jargon v0.0.0
	github.com/clipperhouse/uax29 v1.11.0
	github.com/kljensen/snowball v0.6.0
	github.com/spf13/afero v1.2.2
	golang.org/x/net v0.0.0-20220607020251-c690dde0001d
	golang.org/x/text v0.3.7
)

require (
	github.com/PuerkitoBio/goquery v1.5.1 // indirect
	github.com/andybalholm/cascadia v1.1.0 // indirect
)

replace github.com/clipperhouse/jargon => /repo
