module verif/harness

go 1.22

require (
	github.com/bitcoinsv/bsvd v0.0.0-20190609155523-4c29707f7173
	github.com/bitcoinsv/bsvutil v0.0.0-20181216182056-1d77cf353ea9
	github.com/libsv/libsv v0.0.0
)

require golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9 // indirect

replace github.com/libsv/libsv => /repo

require github.com/bitcoinsv/bsvlog v0.0.0

replace github.com/bitcoinsv/bsvlog => ./bsvlog
