module go.etcd.io/bbolt

go 1.12

require golang.org/x/sys v0.0.0-20200923182605-d9f96fdee20d
