module verif/sim

go 1.27

require (
	github.com/rcrowley/go-metrics v0.0.0-20201227073835-cf1acfcdf475
	golang.org/x/net v0.1.0
	github.com/Shopify/sarama v1.28.0
	github.com/gorilla/websocket v1.4.2
	github.com/hamba/avro v1.6.6
	github.com/inconshreveable/log15 v0.0.0-20201112154412-8562bdadbbac
	github.com/openrelayxyz/cardinal-rpc v1.1.0
	github.com/openrelayxyz/cardinal-streams/v2 v2.0.0-00010101000000-000000000000
	github.com/openrelayxyz/cardinal-types v1.0.0
	github.com/xdg/scram v1.0.3
)

replace github.com/openrelayxyz/cardinal-streams/v2 => /repo

replace github.com/Shopify/sarama => ./.build/sarama

replace github.com/openrelayxyz/cardinal-rpc => ./.build/cardinal-rpc
