def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear'):
    "This is my docstring"


    #recover grid parameters
    # dim 0: uniform
    a_0 = grid[0][0]
    b_0 = grid[0][1]
    n_0 = grid[0][2]
    δ_0 = (n_0-1.0)/(b_0-a_0)
    # dim 1: uniform
    a_1 = grid[1][0]
    b_1 = grid[1][1]
    n_1 = grid[1][2]
    δ_1 = (n_1-1.0)/(b_1-a_1)
    # dim 2: uniform
    a_2 = grid[2][0]
    b_2 = grid[2][1]
    n_2 = grid[2][2]
    δ_2 = (n_2-1.0)/(b_2-a_2)
    # dim 3: uniform
    a_3 = grid[3][0]
    b_3 = grid[3][1]
    n_3 = grid[3][2]
    δ_3 = (n_3-1.0)/(b_3-a_3)

    # extract coordinates
    x_0 = points[0]
    x_1 = points[1]
    x_2 = points[2]
    x_3 = points[3]

    # compute indices and barycentric coordinates
    # dimension 0: uniform grid
    u_0 = (x_0 - a_0)*δ_0
    i_0 = int( floor( u_0 ) )
    i_0 = max( min(i_0,n_0-2), 0 )
    λ_0 = u_0-i_0
    # dimension 1: uniform grid
    u_1 = (x_1 - a_1)*δ_1
    i_1 = int( floor( u_1 ) )
    i_1 = max( min(i_1,n_1-2), 0 )
    λ_1 = u_1-i_1
    # dimension 2: uniform grid
    u_2 = (x_2 - a_2)*δ_2
    i_2 = int( floor( u_2 ) )
    i_2 = max( min(i_2,n_2-2), 0 )
    λ_2 = u_2-i_2
    # dimension 3: uniform grid
    u_3 = (x_3 - a_3)*δ_3
    i_3 = int( floor( u_3 ) )
    i_3 = max( min(i_3,n_3-2), 0 )
    λ_3 = u_3-i_3

    # Basis functions
    Φ_0_0 = 1.0 - λ_0
    Φ_0_1 = λ_0
    Φ_1_0 = 1.0 - λ_1
    Φ_1_1 = λ_1
    Φ_2_0 = 1.0 - λ_2
    Φ_2_1 = λ_2
    Φ_3_0 = 1.0 - λ_3
    Φ_3_1 = λ_3

    val = Φ_0_0*(Φ_1_0*(Φ_2_0*(Φ_3_0*(C[i_0, i_1, i_2, i_3]) + Φ_3_1*(C[i_0, i_1, i_2, i_3 + 1])) + Φ_2_1*(Φ_3_0*(C[i_0, i_1, i_2 + 1, i_3]) + Φ_3_1*(C[i_0, i_1, i_2 + 1, i_3 + 1]))) + Φ_1_1*(Φ_2_0*(Φ_3_0*(C[i_0, i_1 + 1, i_2, i_3]) + Φ_3_1*(C[i_0, i_1 + 1, i_2, i_3 + 1])) + Φ_2_1*(Φ_3_0*(C[i_0, i_1 + 1, i_2 + 1, i_3]) + Φ_3_1*(C[i_0, i_1 + 1, i_2 + 1, i_3 + 1])))) + Φ_0_1*(Φ_1_0*(Φ_2_0*(Φ_3_0*(C[i_0 + 1, i_1, i_2, i_3]) + Φ_3_1*(C[i_0 + 1, i_1, i_2, i_3 + 1])) + Φ_2_1*(Φ_3_0*(C[i_0 + 1, i_1, i_2 + 1, i_3]) + Φ_3_1*(C[i_0 + 1, i_1, i_2 + 1, i_3 + 1]))) + Φ_1_1*(Φ_2_0*(Φ_3_0*(C[i_0 + 1, i_1 + 1, i_2, i_3]) + Φ_3_1*(C[i_0 + 1, i_1 + 1, i_2, i_3 + 1])) + Φ_2_1*(Φ_3_0*(C[i_0 + 1, i_1 + 1, i_2 + 1, i_3]) + Φ_3_1*(C[i_0 + 1, i_1 + 1, i_2 + 1, i_3 + 1]))))
    return val

