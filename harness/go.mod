module github.com/metafates/bento/verif

go 1.22.5

require (
	github.com/charmbracelet/x/term v0.2.1
	github.com/edwingeng/deque/v2 v2.1.1
	github.com/mattn/go-localereader v0.0.1
	github.com/muesli/cancelreader v0.2.2
	github.com/muesli/termenv v0.15.2
	github.com/rivo/uniseg v0.4.7
	github.com/stretchr/testify v1.10.0
	golang.org/x/sync v0.10.0
)

require golang.org/x/text v0.21.0 // indirect

require (
	github.com/aymanbagabas/go-osc52/v2 v2.0.1 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/erikgeiser/coninput v0.0.0-20211004153227-1c3628e74d0f
	github.com/lucasb-eyer/go-colorful v1.2.0 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mattn/go-runewidth v0.0.15 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/sys v0.29.0
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/metafates/bento v0.0.0

replace github.com/metafates/bento => /repo
