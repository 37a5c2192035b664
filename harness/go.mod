module verifharness

go 1.23

require (
	github.com/msnoigrs/gosudachi v0.0.0
	golang.org/x/text v0.3.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/emirpasic/gods v1.12.0 // indirect
	github.com/shurcooL/httpfs v0.0.0-20190707220628-8d4bc4ba7749 // indirect
	github.com/shurcooL/vfsgen v0.0.0-20181202132449-6a9ea43bcacd // indirect
	golang.org/x/sys v0.0.0-20190310054646-10058d7d4faa // indirect
)

replace github.com/msnoigrs/gosudachi => /repo
