DEVELOPER_MODE = 0
