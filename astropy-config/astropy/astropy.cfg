[utils.iers.iers]
auto_download = False
[utils.data]
allow_internet = False
