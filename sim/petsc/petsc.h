/* Minimal stand-in for the PETSc calls tycho2 makes (GMRES on a shell matrix). */
#ifndef SIM_PETSC_H
#define SIM_PETSC_H
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscErrorCode;
typedef int PetscInt;
typedef int PetscMPIInt;
typedef double PetscReal;
typedef double PetscScalar;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef struct SimVec *Vec;
typedef struct SimMat *Mat;
typedef struct SimKsp *KSP;
typedef struct SimPc *PC;
typedef const char *VecType;
typedef const char *KSPType;
typedef const char *PCType;
typedef enum { MATOP_MULT = 3, MATOP_MULT_ADD = 4, MATOP_MULT_TRANSPOSE = 5 } MatOperation;
typedef int KSPConvergedReason;
#define PETSC_DEFAULT (-2)
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE (-1)
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_NULL NULL
#define VECMPI "mpi"
#define VECSTANDARD "standard"
#define VECSEQ "seq"
#define KSPGMRES "gmres"
#define KSPFGMRES "fgmres"
#define KSPBCGS "bcgs"
#define KSPRICHARDSON "richardson"
#define PCNONE "none"
PetscErrorCode PetscInitialize(int *, char ***, const char *, const char *);
PetscErrorCode PetscInitializeNoArguments(void);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscPopSignalHandler(void);
PetscErrorCode VecCreate(MPI_Comm, Vec *);
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt, PetscInt, Vec *);
PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt);
PetscErrorCode VecSetType(Vec, VecType);
PetscErrorCode VecSetFromOptions(Vec);
PetscErrorCode VecDuplicate(Vec, Vec *);
PetscErrorCode VecDestroy(Vec *);
PetscErrorCode VecGetArray(Vec, PetscScalar **);
PetscErrorCode VecRestoreArray(Vec, PetscScalar **);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecCopy(Vec, Vec);
PetscErrorCode VecGetLocalSize(Vec, PetscInt *);
PetscErrorCode VecGetSize(Vec, PetscInt *);
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, void *, Mat *);
PetscErrorCode MatShellSetOperation(Mat, MatOperation, void (*)(void));
PetscErrorCode MatShellSetContext(Mat, void *);
PetscErrorCode MatShellGetContext(Mat, void *);
PetscErrorCode MatDestroy(Mat *);
PetscErrorCode KSPCreate(MPI_Comm, KSP *);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt);
PetscErrorCode KSPSetType(KSP, KSPType);
PetscErrorCode KSPSetFromOptions(KSP);
PetscErrorCode KSPSetUp(KSP);
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool);
PetscErrorCode KSPGMRESSetRestart(KSP, PetscInt);
PetscErrorCode KSPSolve(KSP, Vec, Vec);
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt *);
PetscErrorCode KSPGetResidualNorm(KSP, PetscReal *);
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason *);
PetscErrorCode KSPDestroy(KSP *);
#ifdef __cplusplus
}
#endif
#endif
