module github.com/tdex-network/tdex-daemon/verif

go 1.25

replace github.com/tdex-network/tdex-daemon => /repo

replace github.com/tdex-network/tdex-daemon/pkg/explorer => /repo/pkg/explorer

replace github.com/tdex-network/tdex-daemon/pkg/securestore => /repo/pkg/securestore

replace github.com/tdex-network/tdex-daemon/pkg/macaroons => /repo/pkg/macaroons

replace github.com/dgraph-io/badger/v2 => ./cheap/badger

replace go.etcd.io/bbolt => ./cheap/bbolt

replace github.com/vulpemventures/go-elements => ./cheap/elements

require (
	github.com/tdex-network/tdex-daemon v0.2.1-0.20210324163246-ed408aba2ec6
	github.com/tdex-network/tdex-daemon/pkg/explorer v0.0.0-20210322164638-77a31ea9e66d
	github.com/tdex-network/tdex-daemon/pkg/macaroons v0.0.0-00010101000000-000000000000
	github.com/tdex-network/tdex-daemon/pkg/securestore v0.0.0-20210603132950-1bfb0312f255
)

require (
	github.com/DataDog/zstd v1.4.1
	github.com/beorn7/perks v1.0.0
	github.com/btcsuite/btcd v0.21.0-beta.0.20210426180113-7eba688b65e5
	github.com/btcsuite/btclog v0.0.0-20170628155309-84c8d2346e9f
	github.com/btcsuite/btcutil v1.0.3-0.20201208143702-a53e38424cce
	github.com/btcsuite/btcutil/psbt v1.0.3-0.20201208143702-a53e38424cce
	github.com/btcsuite/btcwallet v0.12.0
	github.com/btcsuite/btcwallet/walletdb v1.3.5
	github.com/cespare/xxhash v1.1.0
	github.com/cpuguy83/go-md2man/v2 v2.0.0-20190314233015-f79a8a8ca69d
	github.com/desertbit/timer v0.0.0-20180107155436-c41aec40b27f
	github.com/dgraph-io/badger/v2 v2.2007.2
	github.com/dgraph-io/ristretto v0.0.3-0.20200630154024-f66de99634de
	github.com/dgrijalva/jwt-go v3.2.0+incompatible
	github.com/dgryski/go-farm v0.0.0-20190423205320-6a90982ecee2
	github.com/dustin/go-humanize v1.0.0
	github.com/fsnotify/fsnotify v1.4.7
	github.com/go-macaroon-bakery/macaroonpb v1.0.0
	github.com/gogo/protobuf v1.2.1
	github.com/golang/protobuf v1.4.3
	github.com/golang/snappy v0.0.1
	github.com/google/uuid v1.1.2
	github.com/gorilla/websocket v1.4.2
	github.com/grpc-ecosystem/go-grpc-middleware v1.0.1-0.20190118093823-f849b5445de4
	github.com/hashicorp/hcl v1.0.0
	github.com/improbable-eng/grpc-web v0.13.0
	github.com/lightningnetwork/lnd/healthcheck v1.0.0
	github.com/lightningnetwork/lnd/ticker v1.0.0
	github.com/magiconair/properties v1.8.4
	github.com/matttproud/golang_protobuf_extensions v1.0.1
	github.com/mitchellh/mapstructure v1.1.2
	github.com/pelletier/go-toml v1.2.0
	github.com/pkg/errors v0.8.1
	github.com/prometheus/client_golang v1.0.0
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4
	github.com/prometheus/common v0.4.1
	github.com/prometheus/procfs v0.0.2
	github.com/rogpeppe/fastuuid v0.0.0-20150106093220-6724a57986af
	github.com/rs/cors v1.7.0
	github.com/russross/blackfriday/v2 v2.0.1
	github.com/shopspring/decimal v1.2.0
	github.com/shurcooL/sanitized_anchor_name v1.0.0
	github.com/sirupsen/logrus v1.8.1
	github.com/soheilhy/cmux v0.1.4
	github.com/sony/gobreaker v0.4.1
	github.com/spf13/afero v1.1.2
	github.com/spf13/cast v1.3.0
	github.com/spf13/jwalterweatherman v1.0.0
	github.com/spf13/pflag v1.0.3
	github.com/spf13/viper v1.7.1
	github.com/subosito/gotenv v1.2.0
	github.com/tdex-network/tdex-protobuf v0.0.0-20210507104156-d509331cccdb
	github.com/thanhpk/randstr v1.0.4
	github.com/timshannon/badgerhold/v2 v2.0.0-20201016201833-94bc303c76d4
	github.com/tyler-smith/go-bip39 v1.1.0
	github.com/urfave/cli/v2 v2.3.0
	github.com/vulpemventures/fastsha256 v0.0.0-20160815193821-637e65642941
	github.com/vulpemventures/go-bip39 v1.0.2
	github.com/vulpemventures/go-elements v0.2.1-0.20210409173614-5b1acc1d1e95
	github.com/vulpemventures/go-secp256k1-zkp v1.1.0
	go.etcd.io/bbolt v1.3.6
	golang.org/x/crypto v0.0.0-20201221181555-eec23a3978ad
	golang.org/x/net v0.0.0-20200707034311-ab3426394381
	golang.org/x/sync v0.0.0-20190423024810-112230192c58
	golang.org/x/sys v0.0.0-20210426080607-c94f62235c83
	golang.org/x/text v0.3.2
	golang.org/x/time v0.0.0-20191024005414-555d28b269f0
	google.golang.org/genproto v0.0.0-20200806141610-86f49bd18e98
	google.golang.org/grpc v1.38.0
	google.golang.org/protobuf v1.25.0
	gopkg.in/errgo.v1 v1.0.1
	gopkg.in/ini.v1 v1.51.0
	gopkg.in/macaroon-bakery.v2 v2.3.0
	gopkg.in/macaroon.v2 v2.1.0
	gopkg.in/yaml.v2 v2.2.4
	github.com/stretchr/testify v1.7.0
)
