"""HDF5 API tables."""
PROD = {"H5Fopen": "F", "H5Fcreate": "F", "H5Freopen": "F",
        "H5Gopen1": "G", "H5Gopen2": "G", "H5Gcreate1": "G", "H5Gcreate2": "G", "H5Gcreate_anon": "G",
        "H5Dopen1": "D", "H5Dopen2": "D", "H5Dcreate1": "D", "H5Dcreate2": "D", "H5Dcreate_anon": "D",
        "H5Dget_space": "S", "H5Screate": "S", "H5Screate_simple": "S", "H5Scopy": "S", "H5Aget_space": "S",
        "H5Aopen": "A", "H5Aopen_name": "A", "H5Aopen_idx": "A", "H5Aopen_by_name": "A", "H5Acreate1": "A",
        "H5Acreate2": "A", "H5Acreate_by_name": "A",
        "H5Tcreate": "T", "H5Tcopy": "T", "H5Aget_type": "T", "H5Dget_type": "T", "H5Tget_native_type": "T",
        "H5Topen2": "T", "H5Tarray_create2": "T", "H5Tvlen_create": "T",
        "H5Pcreate": "P", "H5Pcopy": "P", "H5Dget_create_plist": "P", "H5Dget_access_plist": "P",
        "H5Oopen": "O"}
CLOSE = {"H5Fclose": "F", "H5Gclose": "G", "H5Dclose": "D", "H5Sclose": "S", "H5Aclose": "A", "H5Tclose": "T",
         "H5Pclose": "P", "H5Oclose": "ODGT", "H5Idec_ref": "FGDSATPO"}
KIND = {"F": "file", "G": "group", "D": "dataset", "S": "dataspace", "A": "attribute", "T": "datatype",
        "P": "property list", "O": "object"}


def is_h5(n):
    return n is not None and n.startswith("H5") and n not in ("H5open", "H5check_version", "H5close")
