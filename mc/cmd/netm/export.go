//go:build !noexport

package main

import (
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

const haveRPC = true

func rpcConf(c com.Config) { rpc.VerifDistConf(c) }

// greeter is the gRPC service itself, called without a network.
func greeter() pb.GreeterServer { return rpc.VerifServer() }
