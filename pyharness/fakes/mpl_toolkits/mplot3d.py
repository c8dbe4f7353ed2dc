class axes3d:
    pass
