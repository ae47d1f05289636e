//go:build noexport

package main

import (
	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

// the unexported service of the gRPC package is not there under its name: only HTTP requests are made
const haveRPC = false

func rpcConf(c com.Config)      {}
func greeter() pb.GreeterServer { return nil }
