module github.com/bitcoinsv/bsvlog

go 1.13
