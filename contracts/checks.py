"""Which contracts, lemmas and replay harness decide which property."""
import glob
import importlib
import os

GENERAL = [
    'int, long and size_t arithmetic is exact: every signed operation and narrowing conversion carries a no-overflow obligation; double arithmetic is treated as real arithmetic with uninterpreted non-linear products',
    'typed memory: every block has one element type; allocation succeeds; blocks named by different parameters do not overlap unless the contract says so',
    'OpenMP semantics: a parallel region runs on a team of 1..omp_get_max_threads() threads, barriers separate phases, worksharing loops run every iteration exactly once',
    'termination is not proved (partial correctness)',
]

CHECKS = {}


def check(pid, fns, **k):
    CHECKS[pid] = dict(fns=fns, **k)


def load():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(d + '/*.py')):
        b = os.path.basename(f)[:-3]
        if b != 'checks':
            importlib.import_module(b)


PARTITIONS = ['getSimpleThreadPartition', 'getLoadBalancedPartition']

check('C08', PARTITIONS, lemmas=['SP_mono', 'LB_mono'], replay='c08.cpp')
check('C10', ['getInversePerm', 'isPerm', 'isInversePerm', 'reorderVectorOutOfPlace<double>', 'reorderVectorOutOfPlace<int>',
              'reorderVectorOutOfPlaceWithInversePerm<double>', 'reorderVectorOutOfPlaceWithInversePerm<int>',
              'reorderVector(tmp)', 'reorderVector', 'reorderVectorWithInversePerm(tmp)', 'reorderVectorWithInversePerm',
              'getReorderVector', 'getReorderVectorWithInversePerm', 'copyVector<double>', 'copyVector<int>', 'parMemset', 'parMemcpy'] + PARTITIONS,
      replay='c10.cpp')
check('C09', ['prefixSum', 'prefixSumMultiple'], replay='c09.cpp')
check('C17', ['MemoryPool::allocate', 'MemoryPool::allocateFront', 'MemoryPool::setTail', 'MemoryPool::setHead', 'MemoryPool::getTail',
              'MemoryPool::getHead', 'MemoryPool::contains', 'MemoryPool::initialize', 'MemoryPool::MemoryPool(size_t)',
              'MemoryPool::MemoryPool()', 'MemoryPool::finalize', 'MemoryPool::~MemoryPool', 'MemoryPool::deallocateAll', 'MemoryPool::allocate<int>'],
      replay='c17.cpp', replay_debug=True,
      assume=['malloc_huge_pages returns a page-aligned buffer, so offsets aligned to a divisor of the page size give aligned addresses',
              'marks are compared against the flat offsets of one buffer'])
check('C11', ['CSR::make0BasedIndexing', 'CSR::make1BasedIndexing', 'CSR::CSR(const CSR&)', 'copyVector<double>', 'copyVector<int>'] + PARTITIONS,
      replay='c11.cpp')
check('C06', ['SpMV_<double>', 'CSR::multiplyWithVector', 'CSR::multiplyWithVector(w, x)'] + PARTITIONS, replay='c06.cpp')
check('C07', ['SpMDM_<double>', 'CSR::multiplyWithDenseMatrix', 'CSR::multiplyWithDenseMatrix(W, k, X)'] + PARTITIONS, replay='c07.cpp',
      assume=['output elements are distinct and every addressed element and index fits its block and int; k >= 1'])
check('C12', ['CSR::isSymmetric', 'CSR::hasZeroDiag', 'CSR::getBandwidth', 'CSR::getAverageWidth', 'CSR::getMaxDegree', 'CSR::equals'] + PARTITIONS, replay='c12.cpp',
      assume=['isSymmetric: the columns of a row are distinct; getAverageWidth: at least one row'])
check('C18', ['CSR::constructDiagPtr', 'CSR::computeInverseDiag'], replay='c18.cpp',
      assume=['entries stored before the diagonal entry of a row lie below the diagonal (rows as the loaders store them); computeInverseDiag: every row stores its diagonal entry'])
check('C02', ['CSR::permuteRowptr(out)', 'CSR::permuteMain', 'CSR::permute', 'prefixSum'] + PARTITIONS, replay='c02.cpp',
      assume=['the columns of the local part are renamed by columnPerm, which maps 0..n into 0..n; with diagptr, m <= n and diagptr names the diagonal entry inside the local part of every row',
              '2*nnz + 2 and m + number of threads + 1 fit int'])
check('C03', ['CSR::permuteRowptr(out)', 'CSR::permuteRowsMain', 'CSR::permuteRows', 'prefixSum'] + PARTITIONS, replay='c03.cpp',
      assume=['2*nnz + 2 and m + number of threads + 1 fit int; the partial sums of the row pointers are formed in int'])
check('C01', ['CSR::transpose'] + PARTITIONS, replay='c01.cpp',
      assume=['(n + 1) * number of threads and nnz + base + number of threads fit int; every column is inside 0..n',
              'threads storing the same value to the same flag (row pointers of empty chunks) are harmless'])
check('C04', ['CSR::permuteColsInPlace'], replay='c04.cpp',
      assume=['perm maps 0..n into 0..n; with diagptr, m <= n and diagptr names the diagonal entry inside the local part of every row',
              'nnz + 1 and m + 1 fit int'])
check('C05', ['qsort<double>', 'coo2csr<double>', 'dcoo2csr(arrays)', 'dcoo2csr(matrix)'], replay='c05.cpp',
      assume=['coordinates are 1-based and in range; nnz + 1, m + 1 and n + 1 fit int',
              'separate diagonal values are recorded only when both diag and idiag exist'])
POOL = 'useMemoryPool_() is false (matrices outside the memory pool)'
check('C14', ['generate3D27PtLaplacian', 'generate3D27PtLaplacian(cube)', 'CSR::make1BasedIndexing'], replay='c14.cpp',
      lemmas=['stencil_ascending', 'stencil_complete', 'rows_are_points'],
      assume=['27*nx*ny*nz fits int', POOL])
check('C15', ['splitLU', 'CSR::make0BasedIndexing', 'CSR::make1BasedIndexing'] + PARTITIONS, replay='c15.cpp',
      assume=[POOL, 'external columns lie right of the diagonal; A.idiag exists; L and U do not own their arrays (as new, or as a previous split left them)',
              'm + number of threads and nnz + 1 fit int'])
check('C13', ['CSR::storeBin', 'CSR::loadBin', 'CSR::make0BasedIndexing', 'CSR::make1BasedIndexing'], replay='c13.cpp',
      lemmas=['lengths_sum', 'asum_grow', 'asum_mono'],
      assume=[POOL, 'stdio: fopen gives a stream or null, fwrite appends the bytes it is given, fread delivers the next bytes of the file, fclose closes; '
              'reading starts at the first byte; no read or write fails part-way (short counts are not checked by the code)',
              'the file that is loaded exists and holds a complete stored matrix whose dimensions + 1 fit int',
              'loading with base 1: every row stores its diagonal entry (the positions of others are never set and are shifted along)'])
check('C27', ['CSR::CSR()', 'CSR::alloc', 'CSR::CSR(m, n, nnz)', 'CSR::CSR(m, n, rowptr, colidx, values)', 'CSR::dealloc', 'CSR::~CSR',
              'COO::COO', 'COO::dealloc', 'COO::~COO'], replay='c27.cpp',
      assume=['useMemoryPool_() answers as the configuration says: both a matrix of the pool and one outside it are verified',
              'm + 1 fits int; the arrays of one matrix are distinct blocks'])
READERS = 'mm_read_banner and the size line readers (text parsing with fgets/sscanf) are assumed: success delivers what the text says'
check('C24', ['loadMatrixMarket_', 'loadMatrixMarket', 'loadMatrixMarketTransposed', 'mm_read_mtx_crd_entry', 'mm_is_valid'], replay='c24.cpp',
      assume=[READERS, 'fscanf delivers the numbers of the file one after the other and says how many it found',
              'the file exists (otherwise the loader exits); the stated sizes plus padding and the coordinates fit int, values of integer files fit long long'])
check('C26', ['loadVectorMatrixMarket', 'mm_is_valid'], replay='c26.cpp',
      assume=[READERS, 'fscanf delivers the numbers of the file one after the other and says how many it found',
              'the number of elements stated is below 2^60'])
