package fat

// VerifByIndex is the driver's access to a cluster of a file by its index.
type VerifByIndex struct {
	Cluster func(first ClusterID, index uint) (ClusterID, error)
	Read    func(dirent *Dirent, index uint) ([]byte, error)
}

// VerifIndexed gives what the driver has of that.
func VerifIndexed(drv *FATDriver) VerifByIndex {
	var b VerifByIndex
	if d, ok := any(drv).(interface {
		getClusterInChain(ClusterID, uint) (ClusterID, error)
	}); ok {
		b.Cluster = d.getClusterInChain
	}
	if d, ok := any(drv).(interface {
		readClusterOfDirent(*Dirent, uint) ([]byte, error)
	}); ok {
		b.Read = d.readClusterOfDirent
	}
	return b
}
