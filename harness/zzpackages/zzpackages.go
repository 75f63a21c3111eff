// Package zzpackages stands in for golang.org/x/tools/go/packages in the
// extractor: packages come from the harness instead of from the go command.
package zzpackages

import "golang.org/x/tools/go/packages"

type (
	Package   = packages.Package
	Config    = packages.Config
	LoadMode  = packages.LoadMode
	Error     = packages.Error
	ErrorKind = packages.ErrorKind
	Module    = packages.Module
)

const (
	NeedName            = packages.NeedName
	NeedFiles           = packages.NeedFiles
	NeedCompiledGoFiles = packages.NeedCompiledGoFiles
	NeedImports         = packages.NeedImports
	NeedDeps            = packages.NeedDeps
	NeedExportFile      = packages.NeedExportFile
	NeedTypes           = packages.NeedTypes
	NeedSyntax          = packages.NeedSyntax
	NeedTypesInfo       = packages.NeedTypesInfo
	NeedTypesSizes      = packages.NeedTypesSizes
	NeedModule          = packages.NeedModule
	LoadFiles           = packages.LoadFiles
	LoadImports         = packages.LoadImports
	LoadTypes           = packages.LoadTypes
	LoadSyntax          = packages.LoadSyntax
	LoadAllSyntax       = packages.LoadAllSyntax
)

// Loader gives the packages for a configuration and patterns.
var Loader func(cfg *Config, patterns ...string) ([]*Package, error)

func Load(cfg *Config, patterns ...string) ([]*Package, error) {
	if Loader == nil {
		return nil, nil
	}
	return Loader(cfg, patterns...)
}

func Visit(pkgs []*Package, pre func(*Package) bool, post func(*Package)) {
	packages.Visit(pkgs, pre, post)
}

func PrintErrors(pkgs []*Package) int { return packages.PrintErrors(pkgs) }
