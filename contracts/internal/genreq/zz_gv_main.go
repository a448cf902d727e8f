// Command genreq prints the request protoc would send to a plugin asked to generate code for the named proto files.
package main

import (
	"os"
	"strings"

	_ "github.com/smart-core-os/sc-api/go/traits"
	_ "github.com/smart-core-os/sc-golang/internal/gvall"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/pluginpb"
)

func main() {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: os.Args[1:]}
	seen := map[string]bool{}
	var add func(fd protoreflect.FileDescriptor)
	add = func(fd protoreflect.FileDescriptor) {
		if seen[fd.Path()] {
			return
		}
		seen[fd.Path()] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			add(fd.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
	}
	for i, f := range req.FileToGenerate {
		fd, err := protoregistry.GlobalFiles.FindFileByPath(f)
		if err != nil {
			// maybe only the end of it
			protoregistry.GlobalFiles.RangeFiles(func(d protoreflect.FileDescriptor) bool {
				if strings.HasSuffix(f, d.Path()) || strings.HasSuffix(d.Path(), f) {
					fd, err = d, nil
				}
				return err != nil
			})
		}
		if err != nil {
			panic(f + ": " + err.Error())
		}
		req.FileToGenerate[i] = fd.Path()
		add(fd)
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}
