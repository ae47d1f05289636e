//go:build !noexport

package main

import (
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

const haveWg = true

func wgConf(c com.Config)                                { rpc.VerifDistConf(c) }
func wgSearch(in *pb.SearchReq) (*pb.SearchReply, error) { return rpc.VerifDist(in) }
