module vh

go 1.22

require github.com/hound-search/hound v0.0.0

require (
	golang.org/x/mod v0.10.0
)

replace github.com/hound-search/hound => /repo
