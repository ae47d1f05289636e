//go:build noexport

package main

import (
	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

// the unexported fan-out of the gRPC package is not there under its name: only the HTTP one is checked
const haveWg = false

func wgConf(c com.Config)                                {}
func wgSearch(in *pb.SearchReq) (*pb.SearchReply, error) { return nil, nil }
