import os
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = '''-DCOMMON_FILE_COMPRESS_BZ2 -DCOMMON_FILE_COMPRESS_GZ -DCOMMON_FILE_COMPRESS_LZMA -DCOMMON_PTHREAD
-DCOMMON_PTHREAD_AFFINITY_LINUX -DCOMMON_RANDOM_FIXED_SEED -DSCOTCH_PATCHLEVEL_NUM=6 -DSCOTCH_PTHREAD -DSCOTCH_PTHREAD_MPI
-DSCOTCH_RELEASE_NUM=0 -DSCOTCH_RENAME -DSCOTCH_VERSION_NUM=7 -Drestrict=__restrict -DSCOTCH_DEBUG_ALL -U_FORTIFY_SOURCE -D__NO_CTYPE'''.split()
def flags(gen):
    return DEFS + ['-I' + os.path.join(REPO, 'src/libscotch'), '-I' + os.path.join(gen, 'src/libscotch'), '-I' + os.path.join(gen, 'src/include'), '-I' + os.path.join(REPO, 'src/esmumps'), '-I' + os.path.join(REPO, 'src/libscotchmetis')]
