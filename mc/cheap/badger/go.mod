module github.com/dgraph-io/badger/v2

go 1.12

require (
	github.com/DataDog/zstd v1.4.1
	github.com/cespare/xxhash v1.1.0
	github.com/dgraph-io/ristretto v0.0.3-0.20200630154024-f66de99634de
	github.com/dgryski/go-farm v0.0.0-20190423205320-6a90982ecee2
	github.com/dustin/go-humanize v1.0.0
	github.com/golang/protobuf v1.3.1
	github.com/golang/snappy v0.0.1
	github.com/kr/pretty v0.1.0 // indirect
	github.com/pkg/errors v0.8.1
	github.com/spaolacci/murmur3 v1.1.0 // indirect
	github.com/spf13/cobra v0.0.5
	github.com/stretchr/testify v1.4.0
	golang.org/x/net v0.0.0-20190620200207-3b0461eec859
	golang.org/x/sys v0.0.0-20190626221950-04f50cda93cb
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
)
